#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=None)))
D='detour/'; R='recast/'
M=D+'mesh.go'; Q=D+'query.go'

# ---------------- detour: tile set, references, persistence
p('C01','Mesh connectivity depends only on the set of loaded tiles',
  'After any sequence of successful tile additions and removals (of tiles that reserve room for their connections), every polygon of every loaded tile is connected to exactly the same neighbours, across exactly the same part of the shared edge, as in a mesh freshly built from the tiles that are currently loaded. No connection ever leads to a tile that has been removed, ordinary (non off-mesh) connections are mutual, and repeated add/remove never exhausts or loses connection storage.',
  ['histories'],'every history of add/remove operations (up to the explored depth) over a grid of adjacent and stacked tiles',
  'The tests add one or a few tiles once, in one order, and never remove any.',
  [M,D+'tile.go'],[('AddTile/RemoveTile linking and unlinking',M+': AddTile, RemoveTile, connectExtLinks, connectIntLinks, unconnectLinks, allocLink, freeLink')],
  [('Tiles[].Links / Poly.FirstLink','connection lists per polygon',M),('LinksFreeList','free connection slots of a tile',M)],
  ['NavMesh.Tiles[].Polys/Links','FindPath'])
p('C02','Tile and polygon references identify one load of one tile',
  'A tile or polygon reference handed out by the mesh resolves to that tile or polygon for as long as that tile stays loaded, and to nothing after it is removed, whatever is added or removed in between (until the per-slot generation counter wraps, or the slot\'s generation is set back by re-adding a tile under a former reference); a valid reference is never zero. Re-adding a tile with its former reference gives back exactly the former tile and polygon references, and every lookup (by reference, by grid position, by all layers at a grid position) agrees about what is loaded.',
  ['histories'],'every add/remove/re-add-with-former-reference history up to the explored depth, including generation counter wrap-around, over grids whose positions collide in the tile lookup table',
  'No test removes a tile or looks a stale reference up; the generation counter never advances in the tests.',
  [M],[('salted tile references',M+': encodePolyID, DecodePolyID, IsValidPolyRef, TileAndPolyByRef, TileByRef, TileRefAt, TileAt, TilesAt, RemoveTile')],
  [('MeshTile.Salt','generation of a tile slot',M),('posLookup','hash from grid position to loaded tiles',M),('nextFree','free slots',M)])
p('C03','Refused tile operations report failure and change nothing',
  'Adding a tile that cannot be added (unrecognised, wrong-version or incomplete data, more polygons than a reference can name, occupied grid position, no free slot, requested reference outside the mesh or already in use) or removing one that is not loaded returns a failure status, as documented, instead of ending the program, and leaves the mesh and everything observable through it unchanged. Initialising a mesh or a query with parameters outside the documented limits is likewise reported as a failure status, and parameters within the limits are accepted.',
  ['histories','inputs'],'every kind of refused operation in every mesh state reached by the explored histories, and every small combination of initialisation parameters',
  'The tests only exercise operations that succeed.',
  [M,Q],[('AddTile/RemoveTile/Init argument checks',M),('NewNavMeshQuery limits',Q)])
p('C04','Saving and loading a navigation mesh loses nothing',
  'A mesh that is written and read back has the same tiles under the same references, with the same polygons, vertices, connectivity, areas, flags, detail surface, bounding volumes and off-mesh connections, and answers queries identically (up to ties that the order of loading decides). Writing the loaded mesh again gives the same bytes, and the reported size is the number of bytes written, for meshes with any subset of tile slots in use, after any add/remove history.',
  ['inputs','histories'],'every tile content in the enumerated family (0..2 off-mesh connections, with and without detail and bounding volume data, 1..n tiles, holes in the slot table, advanced generations)',
  'The tests read three fixed files and compare one written file; none has more than a few tiles and off-mesh data is not compared after a round trip.',
  [M,D+'tile.go',D+'structs.go'],[('Decode/ToWriter/Size',M),('serialize/unserialize',D+'tile.go, '+D+'structs.go')])
p('C05','Loading does not depend on how the reader delivers the bytes',
  'Loading a saved mesh gives the same mesh for every way an io.Reader may legitimately split the stream into reads, including data returned together with io.EOF. If the stream ends early or the reader reports an error, at any byte, loading returns an error and no mesh; it never returns a mesh with missing or corrupt content. A stream that is not a saved mesh of this version, or holds a tile that is not one, that is incomplete or that is there twice, is refused in the same way.',
  ['fault_sequences','crash_points'],'every truncation point of the stream, every position at which the reader fails, and every (uniform or single-point) short-read pattern',
  'Tests read complete regular files, where one Read call always fills the buffer.',
  [M],[('Decode',M+': Decode')])
p('C06','Writing reports every failure of the underlying writer',
  'Saving a mesh returns an error whenever any write of the underlying writer fails, wherever in the stream that happens, and returns no error only if all bytes have been delivered. Saving never modifies the mesh, and saving to a file releases the file and reports creation failures.',
  ['fault_sequences'],'a writer failure or short write at every write call and at every byte',
  'Tests write to healthy in-memory buffers only.',
  [M,D+'structs.go'],[('ToWriter/SaveToFile/WriteTo',M+', '+D+'structs.go')])
p('C07','Tile data creation preserves the polygon mesh it is given',
  'Tile data created from a polygon mesh, once loaded, has exactly the given polygons with their vertices (converted to world units), flags, areas and user ids, adjacency between two polygons exactly where the input says so, border edges marked with the right side, and the given detail surface; without a detail mesh the polygons are fan-triangulated. With or without the optional bounding volume tree, detail mesh and off-mesh connections, the result is the same apart from the option itself, and invalid inputs are rejected with an error.',
  ['inputs','configurations'],'every small polygon mesh in the enumerated family and every combination of the optional parts',
  'Tests create tile data from two or three fixed meshes, always with detail mesh and bounding volume tree.',
  [D+'navmeshcreate.go',D+'tile.go',D+'poly.go'],[('CreateNavMeshData',D+'navmeshcreate.go')])

# ---------------- detour: queries
p('C08','FindPath returns real corridors and finds one whenever one exists',
  'A path returned by FindPath starts at the start polygon, each following polygon is directly connected to its predecessor, and no polygon after the first is rejected by the filter. With enough search nodes it ends at the goal, without the partial-result flag, exactly when the goal is reachable through accepted polygons; otherwise it is flagged partial and every polygon in it is reachable; invalid arguments give an invalid-parameter failure.',
  ['inputs','configurations'],'every mesh layout in the enumerated family (grids with every subset of cells present/filtered, several tilings), every start/goal pair',
  'Tests check a dozen fixed queries in fixed meshes.',
  [Q,D+'node.go',D+'nodequeue.go',D+'queryfilter.go'],[('A* search',Q+': FindPath, pathToNode'),('open list heap',D+'nodequeue.go'),('node pool',D+'node.go')])
p('C09','Path choice follows the filter costs',
  'Between alternative routes FindPath chooses according to the traversal costs the filter gives (area costs of 1 and more): the returned corridor is the cheapest one under the filter, where each polygon is taken at the middle of the edge through which the search first reached it and distances are weighted by the cost of the polygon being crossed, up to the search heuristic\'s tolerance. Changing an area cost, include or exclude flags takes effect on the next query and on nothing else. A user\'s own filter is asked about each polygon with that polygon\'s own reference, tile and data, and its costs of crossing one polygon towards the next are followed in the same way.',
  ['inputs','configurations'],'every assignment of areas and area costs from a small domain to the polygons of meshes with alternative routes, every start/goal pair',
  'Tests use default costs only.',
  [Q,D+'queryfilter.go',D+'nodequeue.go'],[('cost accumulation and open list order',Q+': FindPath; '+D+'nodequeue.go'),('StandardQueryFilter.Cost',D+'queryfilter.go')])
p('C10','Sliced path finding equals one-shot path finding for every slicing',
  'However a sliced search is divided into update calls (any iteration budgets, including zero), it performs the same search: it ends with the same status and the same path as the same sliced search run in a single update and, without any-angle shortcuts, as FindPath (inside one tile, where no three polygons are all adjacent to one another); each update reports the iterations it actually performed, never more than asked. With any-angle shortcuts the result is still a valid corridor from start to goal, and finalising towards an existing corridor returns a valid corridor to the furthest visited polygon on it.',
  ['schedules','inputs'],'every composition of the iteration count into update calls (bounded number of slices), every start/goal pair of the enumerated meshes, with and without any-angle option',
  'Sliced queries are not covered by any test.',
  [Q],[('Init/Update/FinalizeSlicedFindPath(Partial)',Q)])
p('C11','A sliced search survives mesh changes between its updates',
  'If tiles are removed or added between the updates of a sliced search, the search never crashes or hangs and never returns a polygon that was not connected at some time during the search; if the start, the goal or a polygon needed by the search was removed the search reports failure. A search that was not affected by the change gives the result it would have given without the change.',
  ['schedules','histories'],'every point between updates at which a tile operation from the alphabet can be inserted (up to two operations), for every start/goal pair',
  'Sliced queries are not covered by any test.',
  [Q,M],[('reference revalidation in updates',Q+': UpdateSlicedFindPath')])
p('C12','Too-small result buffers give a prefix and say so',
  'When the caller\'s buffer cannot hold the whole result of a path, straight-path, raycast or sliced query, the result is the leading part of the full result that fits, nothing is written beyond the buffer, and the status says the buffer was too small; a buffer with room to spare gives the full result without that flag (straight-path and sliced queries may set it when the result fits exactly).',
  ['inputs'],'every buffer length from 1 to beyond the full result length, for every query of the enumerated families',
  'Tests always use large buffers.',
  [Q],[('pathToNode, appendVertex, Raycast, Finalize* bounds handling',Q)])
p('C13','The straight path is the shortest path inside the corridor',
  'FindStraightPath yields points from the (clamped) start to the (clamped) end position which is the shortest polyline inside the given corridor (up to the 1/255 of an edge in which partial border portals are stored): every interior point is a portal end point, every segment stays within the corridor, and the first and last points are flagged as start and end (unless the start coincides with a corner of the corridor). Each point carries the reference of the polygon being entered there. The crossing options add exactly the points where that polyline crosses corridor edges (all, or those where the area changes), without changing its shape.',
  ['inputs'],'every corridor in the enumerated grid meshes and every start/end position from a lattice, with every option',
  'Tests compare a few fixed straight paths.',
  [Q],[('funnel algorithm and portals',Q+': FindStraightPath, appendPortals, appendVertex, portalPoints')])
p('C14','Raycast follows the mesh surface to the first wall',
  'A raycast visits exactly the polygons its 2D segment crosses, in order, up to the first edge that has no connection to an accepted polygon at the crossing point (up to the 1/255 of an edge in which partial border portals are stored). It reports the hit parameter, the wall normal (facing the ray\'s origin side, horizontal, unit length) and the edge that was hit, or "no hit" when the end is reached, and with the cost option the filter\'s cost of the way travelled. The result depends only on the mesh and the arguments, not on what a previously used hit record contained.',
  ['inputs'],'every segment between lattice points in every enumerated mesh (walls, holes, filtered polygons, tile borders with partial overlaps)',
  'Raycast is not covered by any test except through constants.',
  [Q,D+'common.go'],[('Raycast, Raycast2',Q),('IntersectSegmentPoly2D',D+'common.go')])
p('C15','Nearest-polygon and closest-point queries are truly nearest',
  'FindNearestPoly considers exactly the accepted polygons whose bounds touch the search box (up to the quantisation of the bounding volume tree), in all tiles and layers, and returns one at minimal distance (with the documented preference for polygons directly under or over the centre within climb height) together with its closest point, or no polygon if there is none. ClosestPointOnPoly returns the polygon\'s point nearest in the plane, with the height of the detail surface there, and reports correctly whether the position is over the polygon. ClosestPointOnPolyBoundary returns the nearest point of the outline, or the position itself when it is inside.',
  ['inputs','configurations'],'every query centre from a lattice and every box size from a small set, on every enumerated mesh, with and without bounding volume trees and detail meshes',
  'Tests call FindNearestPoly for a few hand-picked points.',
  [Q,D+'polyquery.go',D+'common.go',D+'navmeshcreate.go'],[('queryPolygonsInTile, ClosestPointOnPoly',Q),('bounding volume tree',D+'navmeshcreate.go: createBVTree'),('findNearestPolyQuery',D+'polyquery.go')])
p('C16','Off-mesh connections link exactly the polygons at their end points',
  'An off-mesh connection whose two end points each lie within its radius (and climb height) of a polygon of its own tile (the start) and of its own or a neighbouring tile (the end) connects those polygons: traversable from start to end, and from end to start only if bidirectional; an end point with no polygon in reach is not connected and does not affect anything else. This holds whatever the order in which the tiles were loaded, and paths through the connection carry its end points, area, flags and user id, and the straight path marks them as off-mesh.',
  ['inputs','histories'],'every placement of connection end points on a lattice (within, on and outside polygons, tiles and radius), both directions, every tile load order',
  'Tests use one mesh with two fixed connections in one tile.',
  [M,Q,D+'navmeshcreate.go'],[('baseOffMeshLinks, connectExtOffMeshLinks, FindNearestPolyInTile',M),('classifyOffMeshPoint',D+'navmeshcreate.go'),('portal points of off-mesh polygons',Q)])
p('C17','Queries do not influence one another',
  'The result of a query depends only on the mesh and the arguments: not on earlier queries made with the same query object (a sliced search, from its start to its end, being one query), and not on other queries that run on the same mesh at the same time through other query objects, in any interleaving. Queries never modify the mesh.',
  ['schedules','histories'],'every pair/triple sequence of queries on one query object, and every interleaving (bounded preemptions at the filter callbacks) of two or three queries on separate query objects over one mesh',
  'Tests run isolated queries one at a time.',
  [Q,D+'node.go',D+'nodequeue.go'],[('per-query state reset',Q),('node pool clear',D+'node.go')])
p('C18','A limited node budget degrades searches gracefully',
  'With any node budget within the documented limits a search never crashes, never uses more nodes than allowed and never reports a complete success for an unreached goal: it returns a valid (possibly partial) corridor and reports out-of-nodes whenever the budget kept it from considering a reachable neighbour. The node pool finds exactly the nodes that were allocated since the last clear.',
  ['configurations','histories'],'every node budget from 1 to beyond what the search needs for every query of the enumerated family; every sequence of pool operations up to the explored depth',
  'Tests use a single, large budget.',
  [D+'node.go',D+'nodequeue.go',Q],[('NodePool',D+'node.go'),('out-of-nodes handling',Q)])
p('C19','Tiles connect along their borders exactly where the surfaces meet',
  'Two polygons on facing borders of adjacent tiles (or of layers in the same tile position) are connected exactly when their border edges overlap horizontally by more than the tolerance (0.02) and their heights there come within twice the climb height, for every border side and for up to four neighbours per edge; the connection records the overlapping part of the edge. Polygons that merely touch at a point or lie on non-facing sides are not connected.',
  ['inputs','configurations'],'every pair of border edges with end points and heights from a lattice, on all four sides and both load orders',
  'Tests load meshes whose tile borders match exactly, on one level.',
  [M],[('connectExtLinks, findConnectingPolys, overlapSlabs, calcSlabEndPoints, slabCoord',M)])

# ---------------- recast pipeline
p('C20','The heightfield is the union of the spans put into it',
  'After any sequence of span insertions into a column, the column is the union of the inserted intervals: sorted from bottom to top, non-overlapping and non-touching, covering exactly the inserted cells. The area of a merged span is the larger of the inserted area and the areas of those merged spans whose tops lie within the merge threshold of its top.',
  ['histories'],'every sequence of up to the explored number of insertions with intervals and areas from a small domain',
  'Tests build a few fixed heightfields from one mesh and compare sizes.',
  [R+'heightfield.go',R+'rasterization.go'],[('addSpan',R+'heightfield.go')])
p('C21','Rasterisation covers exactly the cells a triangle touches',
  'Rasterising a triangle marks, in every grid column whose square the triangle overlaps, exactly the height interval of the part of the triangle inside that column (rounded outward, at least one cell high, clamped to the field), and nothing in columns it does not reach (columns it merely touches may be marked or not). The indexed and the non-indexed variants agree with rasterising the triangles one by one, and unusual vertex orders or degenerate triangles change nothing.',
  ['inputs'],'every triangle with vertices on a 3D lattice around and beyond the field',
  'Tests rasterise one fixed level.',
  [R+'rasterization.go'],[('rasterizeTri, dividePoly',R+'rasterization.go')])
p('C22','Span filters mark exactly the unwalkable spans',
  'The low-hanging-obstacle filter makes an unwalkable span walkable exactly when the span below it was walkable and the step up is within the climb height (without cascading); the ledge filter removes exactly the spans next to a drop higher than the climb height (outside of the field, the ground counts as lying one climb height below the base of the field) or on too steep ground; the low-height filter removes exactly the spans without enough clearance. No filter changes anything but area marks.',
  ['inputs'],'every heightfield of small size with span boundaries, areas and parameters from a small domain',
  'Tests check span counts for one level.',
  [R+'filter.go'],[('FilterLowHangingWalkableObstacles, FilterLedgeSpans, FilterWalkableLowHeightSpans',R+'filter.go')])
p('C23','The compact heightfield represents the open space above walkable spans',
  'The compact heightfield contains, in order, exactly one open span for every walkable solid span, from its top to the next solid span (clamped to the representable height), with its area; two neighbouring spans are connected exactly when an agent of the given height and climb can step from one to the other, and that relation is symmetric.',
  ['inputs'],'every heightfield of small size with span boundaries and areas from a small domain, for several heights and climbs',
  'Tests compare aggregate counts for one level.',
  [R+'heightfield.go',R+'recast.go'],[('BuildCompactHeightfield',R+'heightfield.go'),('SetCon/GetCon',R+'recast.go')])
p('C24','Erosion removes exactly the cells too close to an obstruction',
  'Eroding by a radius makes unwalkable exactly those walkable cells whose (chamfer) distance to the nearest non-walkable cell, drop or field edge is below the radius, on all layers and for fields of any size, and changes nothing else.',
  ['inputs'],'every walkable/unwalkable pattern on small grids with every small radius, plus large open fields',
  'Tests compare one level.',
  [R+'area.go'],[('ErodeWalkableArea',R+'area.go')])
p('C25','Area volumes mark exactly the walkable cells inside them',
  'Marking a convex volume assigns its area to exactly those walkable spans whose cell centre lies inside the polygon and whose floor is within the height range; unwalkable cells and cells outside are unchanged, whatever the number of vertices, winding or position relative to the field. Volumes registered with the input geometry are applied with the shape they were given, and deleted ones are not applied.',
  ['inputs','histories'],'every convex lattice polygon with 3 to 6 vertices and several height ranges on small multi-layer fields; every short add/delete history of volumes',
  'No test marks any area.',
  [R+'area.go',R+'inputgeom.go'],[('MarkConvexPolyArea, pointInPoly',R+'area.go'),('AddConvexVolume/DeleteConvexVolume',R+'inputgeom.go')])
p('C26','Regions partition the walkable surface',
  'Monotone region building gives every walkable cell outside the border a region, or none if it belongs to an isolated part smaller than the minimum; every region is connected, contains a single area type, never stacks over itself in a column, and unwalkable cells belong to none. Regions smaller than the merge size are merged into a neighbour of the same area where that gives such a region, region ids stay within the reported maximum, and border cells are marked as border.',
  ['inputs'],'every walkability/area pattern on small grids and layered columns, with several border sizes, minimum and merge sizes',
  'Tests build one level with one setting.',
  [R+'region.go'],[('BuildRegionsMonotone, mergeAndFilterRegions',R+'region.go')])
p('C27','Contours trace region borders faithfully',
  'Each region\'s contour (unless it simplifies to less than a triangle) is a simple closed outline whose raw form follows exactly the boundary of the region\'s cells and whose simplified form uses only raw vertices, deviates from walls and area borders by at most the allowed error, and splits edges longer than the allowed maximum; each edge names the region or wall on its other side, and two regions sharing a border agree about it. Regions with holes are merged into a single outline that encloses exactly the region.',
  ['inputs','configurations'],'every region pattern on small grids with several error and edge length limits',
  'Tests build the contours of one level.',
  [R+'contour.go'],[('BuildContours, walkContour2, simplifyContour, mergeRegionHoles',R+'contour.go')])
p('C28','The polygon mesh tiles the contours with convex polygons',
  'The polygon mesh covers exactly the area enclosed by the (simple) contours with non-overlapping convex polygons of at most the allowed number of vertices, each with the region and area of its contour (no region where the removal of tile border vertices merged several) and no two of them left apart that could form one convex polygon within that number; two polygons are recorded as neighbours exactly when they share an edge, mutually, tile-border edges are marked with their side, and all vertex indices are valid without duplicate vertices.',
  ['inputs','configurations'],'every contour obtained from region patterns on small grids, with each vertex limit from 3 to 6',
  'Tests build the polygon mesh of one level.',
  [R+'polymesh.go',R+'mesh.go'],[('BuildPolyMesh, triangulate, mergePolyVerts, buildMeshAdjacency, removeVertex',R+'polymesh.go, '+R+'mesh.go')])
p('C29','The detail mesh adds height accuracy without changing the outline',
  'For every polygon the detail mesh contributes a triangulation that covers the polygon\'s area with no gaps or overlaps, contains the polygon\'s own vertices first, has valid indices and lies inside the polygon; edge samples on an edge shared by two polygons are identical. On single-level ground it approximates the heightfield surface within the sampling error at the sample points along edges and, in polygons at least two sampling distances wide, inside. Sampling can be disabled, and then only the polygon\'s own vertices are used.',
  ['inputs','configurations'],'every small terrain in the enumerated family with several sampling distances (including disabled) and error limits',
  'Tests build the detail mesh of one level with one setting.',
  [R+'meshdetail.go'],[('BuildPolyMeshDetail, buildPolyDetail, delaunayHull, triangulateHull, getHeightData',R+'meshdetail.go')])
p('C30','Slope classification and grid set-up are exact',
  'A (non-degenerate) triangle is marked walkable exactly when it faces up at no more than the given slope angle, and clearing unwalkable ones touches exactly the others; other marks are untouched. The bounds of a vertex set are its tight axis-aligned box, and the grid size is the box size rounded to the nearest whole number of cells.',
  ['inputs'],'every triangle with lattice vertices and every slope angle from a small set; every small vertex list',
  'Tests check a handful of triangles and one grid.',
  [R+'recast.go'],[('MarkWalkableTriangles, ClearUnwalkableTriangles, CalcBounds, CalcGridSize',R+'recast.go')])
p('C31','The chunked triangle mesh returns every triangle a rectangle needs',
  'The chunked triangle mesh stores each input triangle exactly once, in chunks no larger than the limit, and a rectangle query returns every chunk that overlaps the rectangle, so that no triangle overlapping the rectangle is missed; results that do not fit are dropped, not written elsewhere.',
  ['inputs'],'every small triangle set from the enumerated family with every chunk limit and every lattice rectangle',
  'It is only exercised through tiled builds of one level.',
  [R+'chunkytrimesh.go'],[('createChunkyTriMesh, subdivide, ChunksOverlappingRect',R+'chunkytrimesh.go')])
p('C32','OBJ geometry is loaded exactly',
  'Loading OBJ geometry gives the vertices in order, every face fan-triangulated with its vertex indices, unit face normals following the right-hand rule, and tight bounds; the result does not depend on how the reader delivers the bytes. Malformed input, a failing reader, and (for the input geometry of a build) a document without vertices or faces are reported as errors instead of crashing or giving a truncated mesh.',
  ['inputs','fault_sequences'],'every short OBJ document over a small line alphabet (polygons of 3 to 6 vertices), every read splitting and every failure point',
  'Tests load two well-formed files.',
  [R+'meshloaderobj.go',R+'inputgeom.go'],[('MeshLoaderOBJ.Load, InputGeom.LoadOBJMesh',R+'meshloaderobj.go, '+R+'inputgeom.go')])

# ---------------- whole system
p('C33','A built navigation mesh is walkable exactly where the world is',
  'For block worlds, the navigation mesh built with the one-shot builder lets an agent find a complete path between two places exactly when the places are connected in the world by floor the agent can stand on, with steps within its climb height, slopes within its limit, clearance for its height and gaps wide enough for its radius (up to one voxel of rounding). Every returned straight path stays over such floor. Convex volumes give the floor inside them their area type, later volumes over earlier ones, and the flags of a polygon follow its area type, so that a filter on flags decides which areas a path may use.',
  ['inputs','configurations'],'every small block world (grid of floor heights, walls, holes, ceilings) and every pair of places in it, for several agents',
  'Tests build two fixed levels and compare with stored files.',
  ['sample/solomesh/builder.go',R+'*.go',D+'*.go'],[('whole pipeline','sample/solomesh/builder.go: Build')])
p('C34','Tiled builds agree with one-shot builds and with any rebuild history',
  'A tiled build of a world gives the same reachability between places as the one-shot build of that world, for any tile size (up to one voxel of rounding, pieces of a tile narrower than three voxels, and tile borders, which are joined within twice the climb height). After any history of full builds, rebuilding and removing single tiles and changes of the input, every tile equals the one a fresh full build gives for the input that was current when it was built, and removed tiles are absent.',
  ['histories','inputs','configurations'],'every small block world with several tile sizes; every history of tile build/remove operations up to the explored depth',
  'Tests build the full tiled mesh of fixed levels once; single-tile build and removal are not tested.',
  ['sample/tilemesh/builder.go'],[('Build, BuildTile, RemoveTile','sample/tilemesh/builder.go')])
p('C35','Builds are deterministic and independent of each other',
  'Building the same input with the same settings gives byte-identical navigation data, whatever was built before with the same or other builders and contexts, and whatever is being built concurrently by other builders with their own contexts. Settings changed between builds take full effect on the next build and leave nothing behind.',
  ['histories','schedules'],'every short sequence of builds over a small set of worlds and settings, on shared and separate builders and contexts, and concurrent pairs',
  'Each test performs a single build per builder.',
  ['sample/solomesh/builder.go','sample/tilemesh/builder.go',R+'*.go'],[('no shared mutable state between builds',R+'*.go')])
p('C36','The command line tool never destroys or mislabels files',
  'The command line tool overwrites an existing output file only after an explicit yes; for any other answer, including an empty or closed input, it leaves the file exactly as it was and terminates. A successful build writes exactly the mesh the library builds from that input and configuration (a generated configuration file reproduces the default settings), and the info command accepts exactly such files and does not misstate their type. Failures, including settings that cannot be built with, are reported and leave no output.',
  ['inputs','configurations'],'every sequence of confirmation answers from a small alphabet, every command and mesh type, existing and missing files, valid and invalid inputs',
  'There are no tests of the command line tool.',
  ['cmd/recast/cmd/build.go','cmd/recast/cmd/config.go','cmd/recast/cmd/infos.go','cmd/recast/cmd/utils.go'],[('askForConfirmation, doBuild, doConfig, doInfos','cmd/recast/cmd/*.go')])
p('C37','Packed fields keep their values apart',
  'Fields packed into one word are independent: setting the neighbour connection of a span in one direction, the area or the type of a polygon, or composing a reference from generation, tile and polygon index, always reads back the value set and never changes the others, whatever the previous content and for every allowed split of the reference bits. Status values keep the high-level outcome and the detail flags apart.',
  ['inputs','histories'],'every value in every field after every previous value; every split of reference bits',
  'Tests cover a few values set once on zeroed records.',
  [R+'recast.go',D+'poly.go',M,D+'status.go'],[('SetCon/GetCon',R+'recast.go'),('Poly.SetArea/SetType',D+'poly.go'),('encode/DecodePolyID',M),('Status helpers',D+'status.go')])

p('C38','Planar geometry helpers agree with exact arithmetic',
  'The exported planar helpers are correct: clipping a segment against a convex polygon gives the exact part inside and the edges entered and left (segments along an edge or only touching are not judged), segments intersect and boxes overlap exactly when they do, area and centre are exact. Every position is located in the tile of the grid that contains it, on both sides of the origin.',
  ['inputs'],'every lattice polygon of up to 4 (thorough: 5) vertices with every lattice segment, every pair of segments, every pair of small boxes, every lattice position around several grids',
  'Tests try a handful of segments and boxes.',
  [D+'common.go',M],[('IntersectSegmentPoly2D, IntersectSegSeg2D, TriArea2D, OverlapBounds, OverlapQuantBounds, CalcPolyCenter',D+'common.go'),('CalcTileLoc',M)])
p('C39','The build log and timers report what happened',
  'A build context holds exactly the entries logged while logging was on, in order, with their category, up to its capacity, and dumps them as they are; a timer shows the time spent between its starts and stops, and -1 when it never ran or timers are off. Logging and timing never influence the result of a build, and a build that fails says so in the log.',
  ['histories','configurations'],'every sequence of context operations up to the explored depth; logs around their capacity; every build input with log and timers on, off and full',
  'The tests only print the log when they fail.',
  [R+'buildcontext.go',R+'dump.go'],[('BuildContext','recast/buildcontext.go')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        n = x['statement'].count('. ') + 1
        assert n <= 3, (x['id'], n)
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
