NOTES = ('Every check builds /repo from its working tree, enumerates a stated bounded space completely and compares each '
         'execution with a reference model; see DESIGN.md for alphabets, bounds and oracles. cmd/stl2svx does not compile at the '
         'pinned commit and is covered by no check.')

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note, observe=None, state=None, na=None, **kw):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
             anchors=a, technique=technique, level=level, level_note=note, na=na)
    d.update(kw)
    P.append(d)


prop('C01', 'Binvox files round-trip every voxel model and every window of it',
     'Writing a model that has at least one voxel, or any index window of it, to a binvox file yields a well-formed file whose grid is '
     'exactly the window, whose translation and scale are bit-for-bit those of the model, and whose voxels are exactly the model\'s '
     'voxels inside the window, re-based to the window\'s start. Color voxels are written like white ones. Reading that file back returns the same. Writing does not change the model.',
     ['inputs', 'configurations'], 'every voxel set, grid shape, window (also past the edge of the grid), run-length structure and header number',
     'No existing test calls the writer at all; run lengths around multiples of 255, windows and header precision are all untested.',
     ['binvox/write.go', 'binvox/read.go'],
     [('run-length encoder', 'binvox/write.go:encode'), ('split of long runs into bytes', 'binvox/write.go:write'), ('decoder', 'binvox/read.go:read')],
     'bounded exhaustive enumeration of models, windows and run structures on the real code against a reference model', 'model_checking',
     'Complete for all models on grids up to 9 voxels, all windows of grids up to 4 voxels and of three 24-voxel grids, all run tuples over the boundary lengths; larger grids only through their run structure.',
     observe=['the bytes of the written file', 'the model returned by the reader'])

prop('C02', 'The binvox reader decodes exactly the requested window or refuses',
     'For every byte sequence and every read window the reader either returns an error or exactly the voxels the file stores inside the '
     'window (start inclusive, the requested number of voxels per axis, 0 or more than the model meaning all), at their indices in the whole '
     'model; it never crashes. It refuses a malformed or truncated header, a value other than 0 or 1, a zero or missing run '
     'count, data that overruns the grid, a negative window and a window that starts beyond the grid.',
     ['inputs', 'crash_points'], 'every file content (including every prefix of a valid file) and every window',
     'Three hand-written files and one window are tested; malformed data, truncation, and windows that end inside the model are not.',
     ['binvox/read.go'], [('header parsing', 'binvox/read.go:read'), ('run decoding and window filter', 'binvox/read.go:read')],
     'bounded exhaustive enumeration of file contents and windows on the real reader against a reference decoder', 'model_checking',
     'Complete over byte strings up to length 6 of a 5-letter alphabet and all pair sequences up to 5 on small grids, all windows of seven grids, every prefix of valid files, a menu of header spellings. Data that stops early on a pair boundary is accepted by design.',
     observe=['the returned model', 'the returned error'])

prop('C03', 'Shell files round-trip every shell, its neighbour maps and every window',
     'Writing a voxel shell with at least one voxel, or any index window of it, to a vshell file and reading it back returns exactly the '
     'voxels of the window, re-based to its start, each with its neighbour map, including voxels without any neighbour; grid, translation and scale are preserved exactly. The '
     'file is well-formed for every run length.',
     ['inputs', 'configurations'], 'every shell, neighbour map, window and run-length structure, including runs longer than any count field',
     'The vshell writer has no test; the reader is tested on four tiny inputs.',
     ['vshell/write.go', 'vshell/read.go'], [('run-length encoder', 'vshell/write.go:encode'), ('two count widths', 'vshell/write.go:write, vshell/read.go:read')],
     'bounded exhaustive enumeration of shells, windows and run structures on the real code against a reference model', 'model_checking',
     'Complete for all shells with neighbour maps from a 3-value menu on grids up to 6 voxels, all windows of small grids, every single neighbour bit, all run tuples over boundary lengths including 65535 and above.',
     observe=['the bytes of the written file', 'the shell returned by the reader'])

prop('C04', 'The vshell reader decodes exactly the requested window or refuses',
     'For every byte sequence and every read window the shell reader either returns an error or exactly the shell voxels the file stores '
     'inside the window (start inclusive, the requested number of voxels per axis), with their neighbour maps; it never crashes. Empty and '
     'fully enclosed runs produce no voxels; malformed or truncated headers, truncated records, a zero byte count, overruns and invalid windows are refused.',
     ['inputs', 'crash_points'], 'every file content (including every prefix of a valid file) and every window',
     'Four tiny inputs are tested, none malformed, truncated or with 16-bit counts above 255.',
     ['vshell/read.go'], [('record decoding', 'vshell/read.go:read')],
     'bounded exhaustive enumeration of record sequences, truncations and windows on the real reader against a reference decoder', 'model_checking',
     'Complete over record sequences up to 4 of 16 records on six grids, every truncation of all record pairs, all windows of seven grids. Data that stops early on a record boundary is accepted by design.',
     observe=['the returned shell', 'the returned error'])

prop('C05', 'A merged shell is exactly the exposed surface of the union of its pieces',
     'After merging any sequence of voxel pieces that lie on one grid and share no voxel, in any order, the shell lists exactly once every '
     'voxel of their union that lacks at least one of its 26 neighbours, and no other voxel. Each listed voxel\'s neighbour map has '
     'exactly the bits of the neighbours present in the union.',
     ['histories', 'inputs'], 'every sequence of disjoint pieces: shapes, relative positions and merge orders',
     'Two merges of hand-made walls are tested; the neighbour bookkeeping depends on merge order, map iteration order and slice growth.',
     ['vshell/merge.go', 'vshell/vshell.go'], [('neighbour lookup', 'vshell/merge.go:findNeighbors'), ('update of old shell voxels', 'vshell/merge.go:Add, diffKeys'), ('removal of enclosed voxels', 'vshell/merge.go:Add')],
     'exhaustive enumeration of bounded merge histories on the real code, checked after every step against a reference model of the union', 'model_checking',
     'Complete for: all single models up to 9 voxels, all two-piece splits of all 2x2x2 models, all ordered pairs of 12 shapes at 729 offsets, depth-3 histories over 24 shape triples, mosaics in all orders (up to 8 tiles: every first tile). Pieces that overlap are outside the property.',
     observe=['the shell after every merge'], state=[('shell voxels', 'exposed voxels and neighbour maps so far', 'vshell.VShell.Voxels')])

prop('C06', 'Merging keeps every voxel where it is in the world, at the same resolution',
     'When pieces of equal resolution are merged, whatever the signs and sizes of their relative translations and the order of merging, each '
     'voxel keeps its world position (that of a piece that is not on the grid of the shell is off by at most half a voxel, and no later merge moves it), the resolution (voxels per millimeter) is preserved, and all indices lie inside the merged grid. '
     'Empty and full-color pieces are handled alike, and a piece whose resolution differs by a voxel per millimeter or more is refused without changing the shell.',
     ['histories', 'inputs', 'configurations'], 'every sequence of pieces, every translation (mixed signs, inexact floating point), every resolution',
     'Only a shift by +1 and by -1 on all three axes at once is tested.',
     ['vshell/merge.go', 'vshell/vshell.go', 'cmd/merge-binvox/merge-binvox.go'], [('offset computation and shift of old voxels', 'vshell/merge.go:update'), ('scale adjustment when the grid grows', 'vshell/merge.go:Add, update')],
     'exhaustive enumeration of bounded merge histories on the real code, checked after every step against a world-coordinate reference model', 'model_checking',
     'Complete for two-piece histories over 125 offsets x 36 lattices, depth-3 histories over all sign patterns, chains and alternations of 6 pieces in all 26 directions, empty/coloured/refused pieces through the API and through files.',
     observe=['world position of each shell voxel', 'resolution', 'the written and re-read shell file'])

prop('C07', 'Voxelize sets the voxels a closed mesh fills or touches, and no others',
     'For every closed mesh without self-intersections and every region, each voxel of the region whose cell and neighbouring cells lie '
     'inside the solid is set, and no voxel is set when neither its cell nor a neighbouring cell is touched by the solid (in the '
     'plane through its centre). For axis-aligned boxes the result is exact: the voxels whose half-open cell the box meets in that plane. No voxel lies outside the region. Order and '
     'diagonals of the triangles, how finely the surface is divided, triangles without an area, vertex normals, and the number of bodies, do not matter; a region with a zero dimension is refused; the mesh is not changed.',
     ['inputs', 'configurations'], 'every closed mesh, placement, resolution and region',
     'One test voxelizes one cube; concave and multi-body solids, regions that cut the solid, and sampling planes through vertices or edges are not covered.',
     ['binvox/voxelize.go'],
     [('slice by a z-plane', 'binvox/voxelize.go:intersectTriZPlane'), ('outline of a slice', 'binvox/voxelize.go:rasterizeShellPair'), ('row fill', 'binvox/voxelize.go:floodFill')],
     'bounded exhaustive enumeration of solids, placements and regions on the real code against a reference cross-section', 'model_checking',
     'Complete over the stated families: boxes with faces at all quarter-voxel positions, rows of boxes with all widths and gaps, prisms over all triangles and quadrilaterals of a small lattice, concave prisms, tetrahedra, pairs of bodies, at several lattices. Sloped surfaces are judged up to one voxel.',
     observe=['the returned voxels'])

prop('C08', 'Voxelizing in slices or tiles gives the same voxels as at once',
     'Voxelizing a region one z slice at a time, or in tiles of any size that start anywhere on the region\'s voxel lattice (also tiles that reach outside of '
     'the region), gives for every voxel the same answer as voxelizing the whole region at once.',
     ['inputs', 'configurations'], 'every closed mesh and every division of the region into tiles',
     'No test voxelizes the same mesh twice; holes or doubled voxels on seams need surfaces at particular offsets from a seam.',
     ['binvox/voxelize.go'], [('single slices', 'binvox/voxelize.go:VoxelizeZ'), ('start of a row outside of the region', 'binvox/voxelize.go:floodFill')],
     'bounded exhaustive enumeration of solids and divisions on the real code, differential between slices, tiles and the whole', 'model_checking',
     'Complete over the same solids as C07 with five tile sizes and two tile origins (all combinations in the thorough tier) at dyadic resolutions, where tile origins are exact; rounding of other tile origins is not judged.',
     observe=['the voxels of every slice and tile', 'the voxels of the whole region'])

prop('C09', 'The block mesh of a voxel model encloses exactly its voxels',
     'ToMesh returns a triangle mesh whose boundary is closed, which winds once around the centre of every voxel and not at all around any empty '
     'cell, placed by the model\'s translation and scale, with outward normals; white and color voxels count alike and the model is unchanged.',
     ['inputs', 'configurations'], 'every voxel set, placement and resolution', 'No test looks at ToMesh at all.',
     ['binvox/mesh.go'], [('voxel faces', 'binvox/mesh.go:ToMesh')],
     'bounded exhaustive enumeration of voxel sets on the real code against the winding number of the returned mesh', 'model_checking',
     'Complete for all voxel sets of thirteen grids up to 12 cells (18 in the thorough tier), four placements; the mesh is judged exactly on the half-voxel lattice.',
     observe=['the returned triangles'])

prop('C10', 'The manifold mesh of a voxel model is closed and encloses exactly its voxels',
     'ManifoldMesh (and the manifold-mesh command) returns a closed mesh in which every triangle side is matched by an opposite one, which winds '
     'once around the centre of every voxel and not around that of any empty cell, within the model\'s bounding box, placed by translation and scale. Its volume is that of the voxels; only '
     'where voxels meet along an edge or at a corner alone may the mesh join them there.',
     ['inputs', 'configurations'], 'every voxel set, placement and resolution',
     'The existing test compares a handful of verified golden meshes; 256 local configurations and their seams with each other are not checked.',
     ['binvox/manifold.go', 'binvox/face-templates.go', 'cmd/manifold-mesh/main.go'],
     [('template selection', 'binvox/manifold.go:grid2tris'), ('templates', 'binvox/face-templates.go')],
     'bounded exhaustive enumeration of voxel sets on the real code against closedness and winding number', 'model_checking',
     'Complete for all 256 local configurations (each also placed in the world) and for all sets of thirteen grids up to 12 cells, white and coloured, through the library and the command.',
     observe=['the returned triangles', 'the STL written by manifold-mesh'])

prop('C11', 'The marching-cubes mesh of a voxel model is closed and encloses its voxels',
     'MarchingCubes (and the marching-cubes command) returns a closed mesh that winds once around the centre of every voxel and not around the '
     'centre of any empty cell, placed by translation and scale.',
     ['inputs', 'configurations'], 'every voxel set, placement and resolution', 'No test looks at MarchingCubes at all.',
     ['binvox/marching-cubes.go', 'cmd/marching-cubes/main.go'], [('cell classification', 'binvox/marching-cubes.go:MarchingCubes')],
     'bounded exhaustive enumeration of voxel sets on the real code against closedness and winding number', 'model_checking',
     'Complete for all voxel sets of thirteen grids up to 12 cells (18 in the thorough tier), including every ambiguous local configuration.',
     observe=['the returned triangles', 'the STL written by marching-cubes'])

prop('C12', 'The tiles of stldice together are the whole model, each voxel once',
     'For every model, bounding box, resolution and number of divisions that stldice accepts, the binvox tiles of each STL file lie on one lattice '
     'that starts at the bounding box, share no voxel, and together hold exactly the voxels that the model fills in the bounding box (rounded up to '
     'whole voxels). Each tile is named after its indices; tiles without voxels are not written. The printed script, when executed, produces one STL that encloses '
     'exactly the voxels of the base model that lie in no other model, whatever the names of the files and whatever earlier runs with other divisions or models left in the directory.',
     ['inputs', 'configurations', 'histories'], 'every model, bounding box, resolution, number of divisions per axis and sequence of cutting models',
     'The command has no test; dimensions that are not multiples of the divisions, shifted boxes and whole scripts are never run.',
     ['cmd/stldice/stldice.go', 'binvox/voxelize.go', 'cmd/voxcut/voxcut.go', 'cmd/merge-stl/merge-stl.go'],
     [('division into tiles', 'cmd/stldice/stldice.go:main, dice'), ('script', 'cmd/stldice/stldice.go:main')],
     'bounded exhaustive enumeration of divisions and models on the real command (and the script it prints) against a reference model', 'model_checking',
     'Complete over all divisions 1..4 per axis (a third of them away from dim 6 in the quick tier) x six shapes x resolutions, six bounding boxes, all sequences of up to two of eight cutting models executed end to end, names with special characters, and all sequences of two (thorough three) runs with different divisions, models and cuts in one directory. Sloped solids are judged against one Voxelize of the whole region (C07).',
     observe=['all binvox tiles', 'the STL that the script produces', 'exit status'])

prop('C13', 'An interrupted stldice leaves no broken tile and can simply be run again',
     'Whenever a run of stldice is killed or a file operation fails, at any change of the file system and after any byte of a write, every *.binvox file present is a '
     'complete tile; a run that could not write a tile does not exit with success. Running stldice again then produces '
     'all tiles and the same script as an undisturbed run, and leaves tiles that exist already as they are.',
     ['crash_points', 'faults', 'histories'], 'every point at which a run can be interrupted, every failing file operation, every set of tiles that exist already, repeated interruptions',
     'No test runs the command, let alone stops it midway.',
     ['cmd/stldice/stldice.go', 'binvox/write.go'], [('skip of existing tiles', 'cmd/stldice/stldice.go:dice'), ('atomic write', 'cmd/stldice/stldice.go:dice')],
     'exhaustive enumeration of crash points, torn writes and file faults (injected in package os of the real command), each followed by recovery', 'model_checking',
     'Complete over every file-system change and every byte of the writes of one configuration (40 points per long write of three others in the quick tier), all sets of existing tiles, pairs of interruptions (a quarter of them in the quick tier). Loss of power is not modelled.',
     observe=['the binvox files after the interruption and after the next run', 'the printed scripts', 'exit status'], state=[('tiles on disk', 'complete tiles written so far', '*.binvox next to the STL file')])

prop('C14', 'voxcut keeps exactly the voxels of the base that no cutting model occupies',
     'For a base model, any window of it and any sequence of cutting models on the same lattice (of any size, anywhere in the world), voxcut '
     'writes exactly the base\'s voxels of the window that lie in no cutting model, both as binvox and as STL. A cutting model whose file does not exist cuts nothing; one whose voxels have another size, so that they are no voxels of the base, is refused; '
     'a base or cutting model that cannot be decoded makes voxcut fail without writing a result. Nothing is written as a model when no voxel is left, and an output of an earlier run does not stay behind then; a failing run leaves earlier outputs as they are.',
     ['inputs', 'configurations', 'histories'], 'every base, window, sequence and placement of cutting models',
     'The command has no test.', ['cmd/voxcut/voxcut.go'],
     [('placing of cuts', 'cmd/voxcut/voxcut.go:readCut'), ('removal of voxels', 'cmd/voxcut/voxcut.go:main')],
     'bounded exhaustive enumeration of models, cuts, windows and cut sequences on the real command against a reference difference', 'model_checking',
     'Complete over the stated menus: rows of three voxels x cuts x offsets x windows on each axis, blocks at all offsets, inexact resolutions, all cut sequences up to three, all windows of a small grid, cuts with voxels of another size (refused) or of one that differs by rounding, all with and without outputs of an earlier run.',
     observe=['the written binvox and STL files', 'exit status'])

prop('C15', 'A vox file written by voxcut holds exactly the voxels of the window',
     'The vox file is well-formed (all chunk sizes exact, one byte per coordinate, indices rebased to the window start, size large enough for every voxel) and holds exactly '
     'the voxels of the window, each once, with a visible color; a window that does not fit into 256 voxels per axis is refused.',
     ['inputs', 'configurations'], 'every model and window', 'Nothing tests the vox writer.', ['cmd/voxcut/voxcut.go', 'binvox/binvox.go'],
     [('vox writer', 'cmd/voxcut/voxcut.go:writeVOX')],
     'bounded exhaustive enumeration of models and windows on the real command against a strict decoder', 'model_checking',
     'Complete for all voxel sets of four small grids, all windows of one, and all pairs of boundary indices (0,1,127,128,254,255,256,299) on each axis under twelve windows.',
     observe=['the bytes of the vox file', 'exit status'])

prop('C16', 'The dicing plans cover the whole model with disjoint windows',
     'voxcut-dice, for every model size, section size and choice of outputs, plans (or runs) voxcut windows of at most the section size that lie inside '
     'the model, hold every voxel of it in exactly one, cut the same files and name a distinct output each; executed by a shell, the outputs together are exactly what one voxcut of the whole gives, also when sections become empty, when file names contain special characters, and when outputs of an earlier run exist. '
     'binvox-dice divides the bounding box into factor-many equal boxes per subdivided axis, each converted once for every file under one box and one resolution of at most 1024 voxels and then cut into its own output from the files binvox wrote for that box.',
     ['inputs', 'configurations'], 'every model size, section size, set of outputs, bounding box, factor and set of subdivided axes',
     'Neither command has a test.', ['cmd/voxcut-dice/voxcut-dice.go', 'cmd/binvox-dice/binvox-dice.go', 'cmd/voxcut/voxcut.go'],
     [('section loop', 'cmd/voxcut-dice/voxcut-dice.go:main'), ('box division', 'cmd/binvox-dice/binvox-dice.go:main')],
     'bounded exhaustive enumeration of plans of the real commands against exact coverage, and of executed plans against the whole', 'model_checking',
     'Complete for all grids up to 4x4x4 (6x6x6 thorough) with every section size, all output combinations, executed plans over nine models, sections 2..4 and up to two cuts; binvox-dice over factors up to 5 (9), all axis choices, three boxes. The external binvox tool is not run.',
     observe=['the printed plan', 'the written sections', 'exit status'])

SCHED = 'exhaustive stateless exploration of the schedules of the real code under a controlled scheduler (iterative deviation bounding, happens-before state caching, race detection on every schedule)'

prop('C17', 'Merging STL files in parallel loses nothing on any schedule',
     'For every list of files, number of workers and interleaving of the readers, stl.Merge returns exactly the triangles of all files, or an error when any of them is missing, truncated or broken; '
     'it never hangs, races, panics or leaves goroutines behind, and never has more files open at the same time than there are workers.',
     ['schedules', 'inputs', 'faults'], 'every interleaving of readers, collector and error paths', 'A test sees one interleaving per run, and the existing tests merge no files at all.',
     ['stl/stl.go'], [('worker pool', 'stl/stl.go:Merge'), ('reader', 'stl/stl.go:Load')], SCHED, 'model_checking',
     'All schedules for up to two files with two workers; up to two deviations (thorough three) for all lists of up to three (four) files out of six kinds with every number of workers. The goroutines inside of fauxgl are not reordered.',
     observe=['triangles', 'errors', 'open files', 'goroutines left'])

prop('C18', 'Voxelizing, writing and sharing a model are safe on every schedule',
     'On every interleaving of its goroutines, voxelizing gives exactly the voxels of the shape, also for two regions of one mesh at the same time; Write produces the complete file or returns an error when any byte could not be written; '
     'and concurrent uses of one model (Write, ManifoldMesh, MarchingCubes, ToMesh, String, MBB, Get, vshell.New, vshell.Merge) each give what they give alone. Nothing races, deadlocks or changes the model.',
     ['schedules', 'faults'], 'every interleaving of the goroutines per z-slice and per raster line, of the encoder and writer, and of concurrent calls',
     'A race or lost voxel shows on rare interleavings only, and no test uses a model concurrently.',
     ['binvox/voxelize.go', 'binvox/write.go', 'vshell/write.go', 'binvox/manifold.go', 'binvox/marching-cubes.go', 'vshell/merge.go'],
     [('goroutines per slice and line', 'binvox/voxelize.go:Voxelize, floodFill'), ('encoder and writer', 'binvox/write.go:Write, vshell/write.go:Write')], SCHED, 'model_checking',
     'All schedules for the smallest boxes and files, up to three deviations for larger ones and for all pairs of operations; file limits at four positions.',
     observe=['voxels', 'files', 'errors', 'goroutines left'])

prop('C19', 'The master assembles every job completely or fails it, on any schedule',
     'For every set of concurrent jobs and of agents that are registered early, late or twice and that work, are slow, fail, are unreachable or hang, on every schedule a job ends with either the complete SVX file, in which every slice is the image '
     'made for that slice of that job under the name that the manifest gives it, or an error. With working agents it succeeds, with a failed slice it fails, an agent that cannot be dialed is passed over, a canceled job ends, the failure of one job does not fail another, '
     'an agent has at most one slice at a time, and nothing races or hangs.',
     ['schedules', 'faults', 'histories'], 'every interleaving of jobs, registrations, answers, failures and cancellation', 'The master has no tests.',
     ['stl2svx/master/master.go', 'stl2svx/stl/stl.go'], [('dispatch to idle agents', 'stl2svx/master/master.go:NewJob'), ('registration', 'stl2svx/master/master.go:RegisterAgent')], SCHED, 'model_checking',
     'Up to three agents and three jobs of up to four slices, up to three (thorough four) deviations, with the choice of the idle agent and virtual time explored. gRPC is replaced by direct calls.',
     observe=['SVX file', 'errors', 'calls of the agents', 'goroutines left'])

prop('C20', 'A slice image is exactly the base minus the cuts at that height',
     'For every job - a base, any number of cuts, a resolution and any division into regions - slice z that the agent returns shows, inside a black frame of one pixel and mirrored in y, '
     'exactly the voxels of the base at height z that no cut covers; the division makes no difference, nor does any schedule or another slice made at the same time. A malformed job is refused with an error, by agent and master, and never ends the process.',
     ['inputs', 'schedules', 'faults'], 'every base, cut, division, slice, malformed request and interleaving', 'The agent has no tests.',
     ['stl2svx/agent/agent.go', 'stl2svx/stl/stl.go', 'stl2svx/master/master.go', 'binvox/voxelize.go'],
     [('regions', 'stl2svx/agent/agent.go:generateMR'), ('combination and image', 'stl2svx/agent/agent.go:imager'), ('dimensions', 'stl2svx/stl/stl.go:New')],
     'bounded exhaustive enumeration of jobs on the real agent against a reference model, and ' + SCHED, 'model_checking',
     'Seven bases (thorough eleven) x three dyadic lattices x all divisions up to four x all combinations of eight spans of a cut; 58 malformed requests; schedules of single and concurrent slices.',
     observe=['slice images', 'errors'])

prop('C21', 'svx2stl turns exactly the bright pixels of an SVX file into voxels',
     'For every SVX file, whatever the order of its entries, the names of its slices, its compression and the PNG color type, the STL encloses exactly the voxels whose pixel '
     'has at least half of the full brightness: x and y are the pixel\'s, z is the number in the slice\'s name, and a voxel has the size that the manifest gives, in millimeters. '
     'A file that is truncated, has no manifest or no DENSITY channel, or holds a slice that cannot be named or decoded is refused without a crash and without an STL file.',
     ['inputs', 'crash_points'], 'every voxel set, grid, voxel size, entry order, naming scheme, image type, and every truncation',
     'One test parses one manifest; no image is ever decoded.', ['cmd/svx2stl/main.go', 'binvox/marching-cubes.go'],
     [('manifest', 'cmd/svx2stl/main.go:parseManifest'), ('slices', 'cmd/svx2stl/main.go:read, scanImage')],
     'bounded exhaustive enumeration of SVX files on the real command against a reference model', 'model_checking',
     'Complete for all voxel sets of nine grids up to 9 voxels, all combinations of six name formats, seven image types, six manifests, five voxel sizes, all orders of five entries (six thorough), all gray levels, every truncation of a file and of a slice. Origin and orientation in the manifest are not interpreted.',
     observe=['the STL file', 'exit status'])

prop('C22', 'A command that reports success has written its output completely',
     'Whenever a read or a change of the file system fails (create, any byte of any write, close, rename), once or for good, in voxcut, merge-binvox, merge-stl, manifold-mesh, '
     'marching-cubes, svx2stl, stldice, voxcut-dice or stl2svx-client, the command either exits with an error or its outputs are exactly those of an undisturbed run; input files stay as they are. The same holds for a printed script that standard output does not take completely. '
     'The Write functions of binvox and vshell return an error when the file cannot be written.',
     ['faults'], 'every failing file operation, at every byte of every output and every read of every input', 'Disk-full behaviour is never tested.',
     ['binvox/write.go', 'vshell/write.go', 'stl/stl.go', 'cmd/voxcut/voxcut.go', 'cmd/merge-binvox/merge-binvox.go', 'cmd/merge-stl/merge-stl.go', 'cmd/svx2stl/main.go', 'cmd/stldice/stldice.go', 'cmd/voxcut-dice/voxcut-dice.go', 'stl2svx/stl2svx-client/stl2svx-client.go'],
     [('binvox file', 'binvox/write.go:Write'), ('vshell file', 'vshell/write.go:Write'), ('STL file', 'stl/stl.go:Save'), ('vox file', 'cmd/voxcut/voxcut.go:writeVOX')],
     'exhaustive enumeration of file-system faults, injected in package os of the real commands', 'model_checking',
     'Complete over every read and every change of the file system of the listed runs, with and without earlier outputs, and 24 bytes of every write (every byte in the thorough tier), in two modes, and every number of bytes that standard output takes.',
     observe=['exit status', 'the written files'])

prop('C23', 'A client writes the exact SVX file or fails and leaves everything as it was',
     'For every set of STL files, resolution, division and prefix, stl2svx-client against a real master and agents writes PREFIX-DIM-NX-NY-NZ.svx with a manifest and slices that hold exactly the voxels of the first file without those of the others, at the right voxel size. '
     'If a file is missing, truncated or malformed, the job is invalid, or the master or an agent dies at any point, it either still writes the exact file or exits with an error and leaves an existing output as it was. '
     'After any history of jobs, arriving and dying agents and restarts of the master, a dead agent fails at most one job, bad jobs disturb nothing, and no server process ends by itself.',
     ['inputs', 'faults', 'histories', 'crash_points'], 'every set of files and flags, every defect of a file, every sequence of jobs, arrivals, deaths and restarts', 'No test runs client, master and agent together, none of them has a test at all.',
     ['stl2svx/stl2svx-client/stl2svx-client.go', 'stl2svx/stl2svx-server/stl2svx-server.go', 'stl2svx/master/master.go', 'stl2svx/agent/agent.go', 'stl/stl.go'],
     [('reading and sending the files', 'stl2svx/stl2svx-client/stl2svx-client.go:loadSTL, main'), ('dispatch', 'stl2svx/master/master.go:runAgent')],
     'exhaustive enumeration of event histories, crash points and inputs over the real processes against a reference model', 'model_checking',
     'All sequences of up to three (thorough four) of ten events; every truncation and count of three input files; 700 jobs. The schedule within a job is the operating system\'s (C19 explores it).',
     observe=['the SVX file', 'exit status of the client', 'state of the server processes'])

prop('C24', 'Merge commands merge exactly the pieces and never overwrite unasked',
     'merge-binvox and merge-stl merge all files whose names start with the prefix (taken literally), except the output itself, into one model with exactly their voxels (the shell of the union) or triangles, whatever the spelling of the prefix. '
     'An existing output is only replaced with -f, and its old content is never merged; when there are no pieces, or one cannot be read, the command fails and an existing output keeps its content. No other file changes.',
     ['inputs', 'configurations', 'faults'], 'every set of pieces, spelling of the prefix, state of the output, and defect of a piece', 'Neither command has a test.',
     ['cmd/merge-binvox/merge-binvox.go', 'cmd/merge-stl/merge-stl.go', 'vshell/merge.go', 'stl/stl.go'],
     [('choice of pieces and overwrite check', 'cmd/merge-stl/merge-stl.go:main, cmd/merge-binvox/merge-binvox.go:main'), ('loading of pieces', 'stl/stl.go:Load, vshell/merge.go:Merge')],
     'bounded exhaustive enumeration of directories and flags on the real commands against a reference merge', 'model_checking',
     'Complete for 21 prefixes (with characters that are special in patterns) x six sets of pieces x four states of the output x -f, and every piece broken in six ways. ASCII STL files cut between two triangles are not told from complete ones; binvox files cut between two runs neither.',
     observe=['the output file', 'all other files', 'exit status'])

prop('C25', 'The slave server stores uploads whole, returns exact meshes and never dies',
     'For every region and voxel model in it, GetSTLMesh of stldice-slave returns a closed mesh that encloses exactly the model\'s voxels, and an error for every other region or an unreadable model. '
     'An uploaded STL file is either stored with exactly its triangles or refused with an error and every file as before, also when the disk is full; one that is truncated, too long or miscounted is refused. Requests at the same time give what they give in some order, one after the other, on every schedule. No request ends the server, and regions that differ in any number never share a model.',
     ['inputs', 'faults', 'schedules'], 'every model, region, upload, state of the region, truncation or corruption of an upload, and interleaving of requests', 'The server has no tests.',
     ['server/stldice-slave/stldice-slave.go', 'binvox/manifold.go', 'stl/stl.go'],
     [('upload', 'server/stldice-slave/stldice-slave.go:AddSTLMesh, stlToMesh'), ('mesh', 'server/stldice-slave/stldice-slave.go:GetSTLMesh'), ('region to file', 'server/stldice-slave/stldice-slave.go:filename')],
     'bounded exhaustive enumeration of requests on the real server process against a reference model, and ' + SCHED, 'model_checking',
     'All models on six small grids, fifteen regions that differ in one number, all truncations and count corruptions of a file of three triangles in three states of the region; every change of the file system of an upload fails once (at once or after some bytes, for good or for once); all pairs of twelve requests and five triples on all schedules with up to two deviations (thorough three). Voxelizing uploads is not implemented in the server and only has to be refused.',
     observe=['responses', 'files in the directory of the server', 'the process'])

prop('C26', 'STL files are read exactly or refused, never partly',
     'For every file given as an STL file to stl.Load, merge-stl, stldice or (as an upload) stldice-slave: when it is a well-formed ASCII or binary STL file, exactly its triangles with exactly its coordinates are loaded, whatever their number, the name in the header (a binary header may start with "solid"), or the spacing of the text, and the bounding box is exactly theirs. '
     'A file that is truncated inside a triangle, has a wrong count, or a vertex with missing, malformed or non-finite coordinates is refused with an error: no triangle is dropped, doubled, moved or invented. The commands exit with a failure for such a file and do not crash.',
     ['inputs'], 'every sequence of bytes, and every number of triangles however they are shared among goroutines', 'The tests load only well-formed binary files.',
     ['stl/stl.go', 'cmd/merge-stl/merge-stl.go', 'cmd/stldice/stldice.go', 'server/stldice-slave/stldice-slave.go'],
     [('load', 'stl/stl.go:Load'), ('text', 'stl/stl.go:CheckASCII'), ('binary', 'stl/stl.go:checkSize')],
     'bounded exhaustive enumeration of all files that are one edit away from a well-formed one, run on the real code against an independent reader', 'model_checking',
     'All single edits of lines, words and bytes of an ASCII file, all pairs of words of one facet, all cuts, count bits, headers and special numbers of binary files, 1 to 70 triangles. Unusual layouts of the text (vertexes sharing a line, upper case) may be refused, and a file cut between two facets of an ASCII file cannot be told from a complete one.',
     observe=['the loaded triangles and bounding box', 'exit status and merged file'])

prop('C27', 'Voxels survive the way through meshes, dicing, cutting and merging',
     'For every voxel model, every mesh made of it (ToMesh, ManifoldMesh, MarchingCubes, or the commands) turns into voxels again, at every resolution and alignment, exactly where the solid is: no voxel inside is missing, none outside is set, holes and cavities stay open. '
     'This holds through the whole tool chain: the tiles that stldice writes for such a mesh, with any divisions, together are these voxels; merge-binvox of the tiles is the shell of their union at the same place and resolution; and the printed script makes a closed mesh of exactly the base without the cuts.',
     ['inputs', 'histories'], 'every voxel model, mesher, resolution, alignment, number of divisions, and set of cuts, through chains of up to eight commands', 'No test combines two steps, and none runs a command.',
     ['binvox/voxelize.go', 'binvox/mesh.go', 'binvox/manifold.go', 'binvox/marching-cubes.go', 'cmd/stldice/stldice.go', 'cmd/voxcut/voxcut.go', 'cmd/merge-binvox/merge-binvox.go', 'vshell/merge.go', 'stl/stl.go'],
     [('voxels', 'binvox/voxelize.go:Voxelize'), ('inside', 'binvox/voxelize.go:floodFill'), ('tiles', 'cmd/stldice/stldice.go:diceMesh'), ('merge', 'vshell/merge.go:Merge')],
     'bounded exhaustive enumeration of models and chains of commands on the real code against a reference model of voxel sets', 'model_checking',
     'All sets of small grids and a block with one or two missing voxels, five scales, four alignments, three meshers; five sets of divisions; a base with one and two cuts at all offsets. A face exactly on the border of two voxels may count for either by rounding; marching cubes meshes are judged up to half a voxel.',
     observe=['voxels', 'tiles', 'merged shell', 'merged mesh'])

prop('C28', 'A model behaves as the set of its voxels through every history of operations',
     'Through every sequence of operations on a model - adding voxels and colors, voxelizing meshes whole or slice by slice, writing and reading it back whole or by window, building meshes, asking for voxels, bounds and resolution, making shells, and adding it to a shell that is itself written and read back - the model always holds exactly the voxels (and colors) that the sequence so far gives it. '
     'Asking and building change neither the model nor the input meshes, give the same answer every time, and no earlier result changes when the model changes later.',
     ['histories'], 'every sequence of operations up to the depth, on white and color models', 'The tests call one operation once on a fresh model.',
     ['binvox/binvox.go', 'binvox/voxelize.go', 'binvox/read.go', 'binvox/write.go', 'binvox/mesh.go', 'binvox/manifold.go', 'binvox/marching-cubes.go', 'vshell/vshell.go', 'vshell/merge.go', 'vshell/read.go', 'vshell/write.go'],
     [('voxel maps', 'binvox/binvox.go:Add, AddColor, Get'), ('replacement of the voxels', 'binvox/voxelize.go:Voxelize, VoxelizeZ'), ('collecting shell', 'vshell/merge.go:Add')],
     'explicit exploration of all operation sequences up to a depth on the real code, compared after every operation with a reference model of voxel sets', 'model_checking',
     'All sequences of up to four (thorough: five) of 13 to 17 operations on two white grids and a color model, and of six (eight) of four operations; then all observers in two orders. One model, one collecting shell, two input meshes, grids of at most 27 voxels.',
     observe=['voxels and colors', 'grid, place and resolution', 'meshes', 'shells', 'written files'])
