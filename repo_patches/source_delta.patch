From 4fa06e585f559066e7ac094d6cf589d16d105d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 01/67] fix: read exactly the requested number of voxels per
 axis

---
 binvox/read.go | 2 +-
 vshell/read.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binvox/read.go b/binvox/read.go
index ae9d2f5..930b8ee 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -152,7 +152,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value == 1 && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels[Key{X: xi, Y: yi, Z: zi}] = struct{}{}
 			}
 			yi++
diff --git a/vshell/read.go b/vshell/read.go
index 4a27bb4..1be6883 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -159,7 +159,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value != 0 && value != 0xffffffff && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
 			}
 			yi++
-- 
2.43.0


From e7b07bba8563023c548a12abe1de69d4490b2fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 02/67] fix: keep voxels without neighbors when writing a
 vshell file

---
 vshell/read.go  | 4 +++-
 vshell/write.go | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/vshell/read.go b/vshell/read.go
index 1be6883..dafab3f 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -153,6 +153,8 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			count = uint16(c)
 		}
 
+		n := NeighborBitMap(value) &^ x0y0z0 // the center bit marks a voxel without neighbors
+
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
@@ -160,7 +162,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
-				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
+				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: n})
 			}
 			yi++
 			if yi >= ny {
diff --git a/vshell/write.go b/vshell/write.go
index bcd6556..07e531a 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -120,6 +120,9 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				var newValue uint32
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
+					if newValue == 0 { // 0 means "no voxel"; mark a voxel without neighbors with the center bit.
+						newValue = uint32(x0y0z0)
+					}
 				}
 				if newValue != value {
 					if count > 0 { // To account for first value being sent.
-- 
2.43.0


From 1cc0bd273629bdafac5162a4f0c67c3622ae240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 03/67] fix: split vshell runs longer than 65535 voxels

---
 vshell/write.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vshell/write.go b/vshell/write.go
index 07e531a..c0009e3 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 )
 
@@ -131,6 +132,10 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 					value = newValue
 					count = 1
 				} else {
+					if count == math.MaxUint16 { // the largest run that fits in the file format
+						ch <- rle{value, count}
+						count = 0
+					}
 					count++
 				}
 			}
-- 
2.43.0


From cf8fa89ee5fccf07c96cc3244676580ef1b96f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 04/67] fix: report a failed header write

---
 binvox/write.go | 8 ++++++--
 vshell/write.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/binvox/write.go b/binvox/write.go
index a172bb6..6f6f594 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -39,7 +39,9 @@ data
 
 func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(b.WhiteVoxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -55,7 +57,9 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go b.encode(ch, b.WhiteVoxels, sx, sy, sz, nx, ny, nz)
diff --git a/vshell/write.go b/vshell/write.go
index c0009e3..9c84ec4 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -39,7 +39,9 @@ data
 
 func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(vs.Voxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -61,7 +63,9 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go vs.encode(ch, lookup, sx, sy, sz, nx, ny, nz)
-- 
2.43.0


From a8598bd9903c6224b8883ef65e15f71a44fcc53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 05/67] fix: keep updating old shell voxels while new ones are
 added

---
 vshell/merge.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vshell/merge.go b/vshell/merge.go
index ad161c7..dcd57cb 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -3,6 +3,7 @@ package vshell
 import (
 	"fmt"
 	"log"
+	"slices"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 )
@@ -82,6 +83,7 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	log.Printf("New shell dimensions are: (%v,%v,%v)", vs.NX, vs.NY, vs.NZ)
 
 	log.Printf("creating lookup table for %v old shell voxels...", len(vs.Voxels))
+	vs.Voxels = slices.Grow(vs.Voxels, len(lookup)) // old points into vs.Voxels, so it must not move below
 	old := make(shellMap)
 	for i, v := range vs.Voxels {
 		old[key{v.X, v.Y, v.Z}] = &vs.Voxels[i]
-- 
2.43.0


From 0923e92cd86463b937073d07b1979c77f961474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 06/67] fix: round vshell offsets to the nearest voxel

---
 vshell/merge.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index dcd57cb..5c10647 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -3,6 +3,7 @@ package vshell
 import (
 	"fmt"
 	"log"
+	"math"
 	"slices"
 
 	"github.com/gmlewis/stldice/v4/binvox"
@@ -134,9 +135,9 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
 	}
 
-	dx = int((bv.TX - vs.TX) * vpmm)
-	dy = int((bv.TY - vs.TY) * vpmm)
-	dz = int((bv.TZ - vs.TZ) * vpmm)
+	dx = int(math.Round((bv.TX - vs.TX) * vpmm))
+	dy = int(math.Round((bv.TY - vs.TY) * vpmm))
+	dz = int(math.Round((bv.TZ - vs.TZ) * vpmm))
 	if bv.TX < vs.TX {
 		vs.TX = bv.TX
 	} else {
-- 
2.43.0


From e47034bc9393dd16d19545ea73f8283b889cf902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 07/67] fix: merge voxels whose origin is lower on some axes
 and higher on others

---
 vshell/merge.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 5c10647..7dc9a83 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -155,6 +155,18 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		return dx, dy, dz, nil
 	}
 
+	// Shift the new voxels along the axes where the origin of the shell stays put.
+	var newDX, newDY, newDZ int
+	if dx > 0 {
+		newDX, dx = dx, 0
+	}
+	if dy > 0 {
+		newDY, dy = dy, 0
+	}
+	if dz > 0 {
+		newDZ, dz = dz, 0
+	}
+
 	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
 	beforeVPMM := vs.VoxelsPerMM()
 	// log.Printf("GML: beforeVPMM=%v, before scale=%v", beforeVPMM, vs.Scale)
@@ -181,7 +193,7 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
 	log.Printf("New shell dimensions are: (%v,%v,%v)", vs.NX, vs.NY, vs.NZ)
 
-	return 0, 0, 0, nil
+	return newDX, newDY, newDZ, nil
 }
 
 func (m lookupMap) findNeighbors(k key, old shellMap) (result NeighborBitMap, toCheck []key) {
-- 
2.43.0


From ffe9335c276bd47297bf4044bb67f44caa6c3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 08/67] fix: accept equal resolutions that differ by rounding
 errors

---
 vshell/merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 7dc9a83..5dfc66b 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -131,7 +131,8 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 // the addition of the BinVOX model.
 func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 	vpmm := vs.VoxelsPerMM()
-	if int(vpmm) != int(bv.VoxelsPerMM()) { // Course test for large discrepancies
+	sameVPMM := math.Abs(vpmm-bv.VoxelsPerMM()) <= 1e-6*vpmm // equal up to rounding errors
+	if int(vpmm) != int(bv.VoxelsPerMM()) && !sameVPMM {     // Course test for large discrepancies
 		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
 	}
 
-- 
2.43.0


From f1a8acf6110b22e306e84afb1cf1a56ee8be1415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 09/67] fix: keep the color voxels of the first binvox in a
 vshell

---
 vshell/vshell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/vshell.go b/vshell/vshell.go
index 3996f63..9793a56 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -58,7 +58,7 @@ func New(bv *binvox.BinVOX) (*VShell, error) {
 		TX: bv.TX, TY: bv.TY, TZ: bv.TZ,
 		Scale: bv.Scale,
 	}
-	if len(bv.WhiteVoxels) > 0 {
+	if len(bv.WhiteVoxels) > 0 || len(bv.ColorVoxels) > 0 {
 		if err := vs.Add(bv); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b38c223700284e91ae3a38a53a86133f19e6ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 10/67] fix: place the first voxels added to an empty vshell
 where they belong

---
 vshell/merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vshell/merge.go b/vshell/merge.go
index 5dfc66b..61aceed 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -47,6 +47,10 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 		if dx, dy, dz, err = vs.update(bv); err != nil {
 			return err
 		}
+	} else if len(bv.WhiteVoxels) > 0 || len(bv.ColorVoxels) > 0 { // an empty shell has no grid of its own yet
+		vs.NX, vs.NY, vs.NZ = bv.NX, bv.NY, bv.NZ
+		vs.TX, vs.TY, vs.TZ = bv.TX, bv.TY, bv.TZ
+		vs.Scale = bv.Scale
 	}
 
 	log.Printf("creating lookup table for %v new voxels...", len(bv.WhiteVoxels))
-- 
2.43.0


From 7d01303f6ecd1a12ed6dde7dabd2632fd707303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 11/67] fix: report an error when there are no binvox files to
 merge

---
 vshell/merge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vshell/merge.go b/vshell/merge.go
index 61aceed..83e926d 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -11,6 +11,9 @@ import (
 
 // Merge merges one or more binvox files into a single VShell.
 func Merge(binfiles []string) (*VShell, error) {
+	if len(binfiles) == 0 {
+		return nil, fmt.Errorf("no binvox files to merge")
+	}
 	var vs *VShell
 	for _, filename := range binfiles {
 		bv, err := binvox.Read(filename, 0, 0, 0, 0, 0, 0)
-- 
2.43.0


From 642681793b9f6b30e776090da01baedf22d2e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 12/67] fix: keep voxels outside of the region out of the
 result of Voxelize

---
 binvox/voxelize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 2b282c2..659e913 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -270,7 +270,9 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 				}
 				k := Key{xi, yi, zi}
 				if len(set[k]) > 0 { // triangles intersect this voxel.
-					setVoxelFunc(k)
+					if xi >= 0 {
+						setVoxelFunc(k)
+					}
 					var inCount, outCount int
 					for _, tri := range set[k] {
 						if _, ok := seenTris[tri]; ok {
-- 
2.43.0


From af06f884ee08ec860ad27b77855d2d4eed54e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 13/67] fix: keep the whole intersection when the z-plane
 passes through a vertex

---
 binvox/voxelize.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 659e913..f4e10b8 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -141,7 +141,7 @@ func intersectZPlane(mesh *gl.Mesh, z float64) (result []*intersectionPair) {
 func intersectTriZPlane(t *gl.Triangle, z float64) (*intersectionPair, bool) {
 	v1, ok1 := intersectSegment(t.V1.Position, t.V2.Position, z)
 	v2, ok2 := intersectSegment(t.V2.Position, t.V3.Position, z)
-	if ok1 && ok2 {
+	if ok1 && ok2 && v1 != v2 { // v1 == v2 if the z-plane passes through V2.
 		return &intersectionPair{v1: v1, v2: v2, tri: t}, true
 	}
 	v3, ok3 := intersectSegment(t.V3.Position, t.V1.Position, z)
@@ -151,6 +151,9 @@ func intersectTriZPlane(t *gl.Triangle, z float64) (*intersectionPair, bool) {
 	if ok2 && ok3 {
 		return &intersectionPair{v1: v2, v2: v3, tri: t}, true
 	}
+	if ok1 && ok2 {
+		return &intersectionPair{v1: v1, v2: v2, tri: t}, true
+	}
 	return nil, false
 }
 
-- 
2.43.0


From c4ea1d075d0cad0b1ee908ba9243fdc386fa9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 14/67] fix: decide by the last crossing whether a voxel lies
 inside of the mesh

Counting the triangles in a voxel filled gaps and left holes wherever faces of
different directions share a voxel.
---
 binvox/voxelize.go | 50 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index f4e10b8..f887bd4 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -157,8 +157,26 @@ func intersectTriZPlane(t *gl.Triangle, z float64) (*intersectionPair, bool) {
 	return nil, false
 }
 
+// intersectRasterLine returns the X coordinate at which a triangle crosses the raster line (y,z)
+// and how X changes with y, to order crossings at the same X.
+func intersectRasterLine(t *gl.Triangle, y, z float64) (x, slope float64, ok bool) {
+	pair, ok := intersectTriZPlane(t, z)
+	if !ok || (pair.v1.Y > y) == (pair.v2.Y > y) {
+		return 0, 0, false
+	}
+	lo, hi := pair.v1, pair.v2
+	if lo.Y > hi.Y {
+		lo, hi = hi, lo
+	}
+	slope = (hi.X - lo.X) / (hi.Y - lo.Y)
+	return lo.X + (y-lo.Y)*slope, slope, true
+}
+
 // intersectSegment returns an intersection between two points and the z-plane.
 func intersectSegment(v0, v1 gl.Vector, z float64) (gl.Vector, bool) {
+	if v0.Z > v1.Z { // Neighboring triangles must agree on the intersection.
+		v0, v1 = v1, v0
+	}
 	u := v1.Sub(v0)
 	w := v0.Sub(gl.V(0, 0, z))
 	d := gl.V(0, 0, 1).Dot(u)
@@ -261,11 +279,16 @@ func (x xMinMaxMap) update(xi, yi int) {
 
 // floodFill flood-fills the internal voxels within the voxel shell.
 func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax xMinMaxMap) {
+	dz := 1.0 / b.VoxelsPerMM() // millimeters per voxel
+	z := b.TZ + (0.5+float64(zi))*dz
 	var wg sync.WaitGroup
 	for yi, mm := range xMinMax { // yi >= 0 && yi < b.NY
 		wg.Add(1)
 		go func(yi, min, max int) {
-			var inside bool
+			var inside, before bool
+			var inCount, outCount int
+			y := b.TY + (0.5+float64(yi))*dz            // middle of the raster line
+			lastX, lastSlope := math.Inf(-1), 0.0       // last crossing of the raster line
 			seenTris := make(map[*gl.Triangle]struct{}) // Only process each triangle once.
 			for xi := min; xi <= max; xi++ {
 				if xi >= b.NX { // Don't care past the subregion of interest.
@@ -276,12 +299,20 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 					if xi >= 0 {
 						setVoxelFunc(k)
 					}
-					var inCount, outCount int
 					for _, tri := range set[k] {
 						if _, ok := seenTris[tri]; ok {
 							continue
 						}
 						seenTris[tri] = struct{}{}
+						// The last crossing decides, no matter how many triangles share this voxel.
+						x, slope, ok := intersectRasterLine(tri, y, z)
+						if !ok || x < lastX || (x == lastX && slope < lastSlope) {
+							continue
+						}
+						if x != lastX || slope != lastSlope {
+							lastX, lastSlope = x, slope
+							before, inCount, outCount = inside, 0, 0
+						}
 						switch d := tri.V1.Normal.Dot(gl.V(-1, 0, 0)); {
 						case d > epsilon:
 							inCount++
@@ -289,13 +320,14 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 							outCount++
 						default:
 						}
-					}
-					switch {
-					case inCount > outCount:
-						inside = true
-					case inCount < outCount:
-						inside = false
-						// otherwise, keep previous value
+						switch {
+						case inCount > outCount:
+							inside = true
+						case inCount < outCount:
+							inside = false
+						default: // keep previous value
+							inside = before
+						}
 					}
 					continue
 				}
-- 
2.43.0


From 3484c5ecafcb62a57c6d51862ddba6519c77753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 15/67] fix: close the manifold mesh around five more voxel
 corners

---
 binvox/manifold.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/binvox/manifold.go b/binvox/manifold.go
index 7213aa7..2435467 100644
--- a/binvox/manifold.go
+++ b/binvox/manifold.go
@@ -503,6 +503,17 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 	case g1 | g5 | g6 | g7: // (inverse = g0234 = case g0 | g2 | g3 | g4:)
 		return apply(k, rotateTrisCounterClockwiseY(mirrorX(rotateTrisCounterClockwiseZ(rotateTris180Z(v2v)))), flipNormals(g0156))
 
+	case g2 | g4 | g6 | g7:
+		return apply(k, rotateTrisClockwiseY(mirrorX(v2v)), g0156)
+	case g0 | g1 | g3 | g5: // (inverse = g2467 = case g2 | g4 | g6 | g7:)
+		return apply(k, rotateTrisClockwiseY(mirrorX(v2v)), flipNormals(g0156))
+	case g1 | g2 | g3 | g7:
+		return apply(k, rotateTrisCounterClockwiseY(mirrorX(v2v)), g0156)
+	case g0 | g1 | g2 | g4:
+		return apply(k, rotateTrisClockwiseY(v2v), g0156)
+	case g3 | g5 | g6 | g7: // (inverse = g0124 = case g0 | g1 | g2 | g4:)
+		return apply(k, rotateTrisClockwiseY(v2v), flipNormals(g0156))
+
 	case g2 | g4 | g5 | g7:
 		return apply(k, v2v, g2457)
 
-- 
2.43.0


From 7e34ff21af7f072c00c94cce4b521b33717e6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 16/67] fix: dice the whole model when its dimensions are not
 multiples of the divisions

---
 cmd/stldice/stldice.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 030334e..e0a5f81 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -128,19 +128,21 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 	modelDimInMM := mbb.Size()
 	log.Printf("diceMesh(mbb=(%v,%v,%v)-(%v,%v,%v), size=%v, scale=%v, dim=%v, n=[%v,%v,%v], outPrefix=%v); %v voxels per millimeter; %v millimeters per voxel", mbb.Min.X, mbb.Min.Y, mbb.Min.Z, mbb.Max.X, mbb.Max.Y, mbb.Max.Z, modelDimInMM, scale, dim, nx, ny, nz, outPrefix, vpmm, mmpv)
 
-	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
+	const eps = 1e-6 // a rounding error must not add a voxel
+	newModelDimX := int(math.Ceil(modelDimInMM.X*vpmm - eps))
+	newModelDimY := int(math.Ceil(modelDimInMM.Y*vpmm - eps))
+	newModelDimZ := int(math.Ceil(modelDimInMM.Z*vpmm - eps))
 	log.Printf("number of voxels needed along each axis to cover entire model: [%v,%v,%v]", newModelDimX, newModelDimY, newModelDimZ)
 
-	// subregion dimensions
-	dimX := newModelDimX / nx
-	dimY := newModelDimY / ny
-	dimZ := newModelDimZ / nz
-	if dimX == 0 || dimY == 0 || dimZ == 0 {
-		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+	if newModelDimX < nx || newModelDimY < ny || newModelDimZ < nz {
+		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
 
+	// subregion dimensions, rounded up so that the subregions cover the entire model
+	dimX := (newModelDimX + nx - 1) / nx
+	dimY := (newModelDimY + ny - 1) / ny
+	dimZ := (newModelDimZ + nz - 1) / nz
+
 	maxDim := dimX
 	if dimY > maxDim {
 		maxDim = dimY
-- 
2.43.0


From 5cd655dda0cab2b97b58a453e9e9d3ea8f2e9607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 17/67] fix: list the existing regions in the script when
 stldice is run again

---
 cmd/stldice/stldice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index e0a5f81..8898c57 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -163,6 +163,7 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 				outFile := newPrefix + ".binvox"
 				if _, err := os.Stat(outFile); err == nil || os.IsExist(err) {
 					log.Printf("Skipping writing existing file %v", outFile)
+					prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
 					continue
 				}
 
-- 
2.43.0


From 646c3089e42731b74dda49c844e9b91727294fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 18/67] fix: never leave a partially-written region behind

---
 cmd/stldice/stldice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 8898c57..07b12f8 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -182,7 +182,11 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 					continue
 				}
 				log.Printf("Writing %v voxels to %v", len(bv.WhiteVoxels), outFile)
-				if err := bv.Write(outFile, 0, 0, 0, 0, 0, 0); err != nil {
+				tmpFile := outFile + ".tmp" // Never leave a partially-written outFile behind: the next run would skip it.
+				if err := bv.Write(tmpFile, 0, 0, 0, 0, 0, 0); err != nil {
+					return nil, err
+				}
+				if err := os.Rename(tmpFile, outFile); err != nil {
 					return nil, err
 				}
 				prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
-- 
2.43.0


From a8aaa51ff6c27fdac27a6714367773be9b544d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 19/67] fix: write vox files with one byte per coordinate and
 correct sizes

---
 cmd/voxcut/voxcut.go | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index e499602..abab307 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -92,7 +92,7 @@ func main() {
 		if err != nil {
 			log.Fatalf("Unable to create file %v: %v", *voxFile, err)
 		}
-		if err := writeVOX(f, base.WhiteVoxels); err != nil {
+		if err := writeVOX(f, base.WhiteVoxels, *startX, *startY, *startZ); err != nil {
 			log.Fatalf("writeVOX: %v", err)
 		}
 		if err := f.Close(); err != nil {
@@ -169,14 +169,14 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	return newVoxels, nil
 }
 
-// writeVOX writes a vox file from the base voxels.
-func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
+// writeVOX writes a vox file from the base voxels, with (sx,sy,sz) becoming the origin.
+func writeVOX(f io.Writer, base binvox.WhiteVoxelMap, sx, sy, sz int) error {
 	header := gl.VOXHeader{Magic: [4]byte{'V', 'O', 'X', ' '}, Version: 150}
 	if err := binary.Write(f, binary.LittleEndian, &header); err != nil {
 		return fmt.Errorf("header: %v", err)
 	}
 
-	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + len(base)*4 + 4)}
+	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + 12 + 12 + 4 + len(base)*4)}
 	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
 		return fmt.Errorf("MAIN: %v", err)
 	}
@@ -187,23 +187,26 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 
 	var maxX, maxY, maxZ int
 	for v := range base {
-		if v.X > maxX {
-			maxX = v.X
+		if v.X-sx > maxX {
+			maxX = v.X - sx
 		}
-		if v.Y > maxY {
-			maxY = v.Y
+		if v.Y-sy > maxY {
+			maxY = v.Y - sy
 		}
-		if v.Z > maxZ {
-			maxZ = v.Z
+		if v.Z-sz > maxZ {
+			maxZ = v.Z - sz
 		}
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxX)); err != nil {
+	if maxX > 255 || maxY > 255 || maxZ > 255 {
+		return fmt.Errorf("a vox file is limited to 256 voxels in each dimension, need (%v,%v,%v)", maxX+1, maxY+1, maxZ+1)
+	}
+	if err := binary.Write(f, binary.LittleEndian, int32(maxX+1)); err != nil {
 		return fmt.Errorf("maxX: %v", err)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxY)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxY+1)); err != nil {
 		return fmt.Errorf("maxY: %v", err)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxZ)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxZ+1)); err != nil {
 		return fmt.Errorf("maxZ: %v", err)
 	}
 
@@ -222,18 +225,9 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 		// if vc.A >= 0.5 && vc.R+vc.G+vc.B > 1.5 {  // WHAT?!?
 		// 	i = 1
 		// }
-		if err := binary.Write(f, binary.LittleEndian, int32(v.X)); err != nil {
-			return fmt.Errorf("X: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Y)); err != nil {
-			return fmt.Errorf("Y: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Z)); err != nil {
-			return fmt.Errorf("Z: %v", err)
-		}
-		i := int32(1)
-		if err := binary.Write(f, binary.LittleEndian, i); err != nil {
-			return fmt.Errorf("I: %v", err)
+		voxel := gl.VOXVoxel{X: uint8(v.X - sx), Y: uint8(v.Y - sy), Z: uint8(v.Z - sz), I: 1}
+		if err := binary.Write(f, binary.LittleEndian, &voxel); err != nil {
+			return fmt.Errorf("voxel: %v", err)
 		}
 	}
 	return nil
-- 
2.43.0


From d4c2891ffe99a88b597d36281a3f28eba76db232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 20/67] fix: cut where the cutting model lies in the world

---
 cmd/voxcut/voxcut.go | 48 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index abab307..d6e380d 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 
 	gl "github.com/fogleman/fauxgl"
@@ -61,7 +62,7 @@ func main() {
 	}
 
 	for i := 1; i < flag.NArg(); i++ {
-		cut, err := binvox.Read(flag.Arg(i), *startX, *startY, *startZ, *countX, *countY, *countZ)
+		cut, err := readCut(base, flag.Arg(i))
 		if err != nil {
 			log.Printf("skipping: %v", err)
 			continue
@@ -123,6 +124,44 @@ func main() {
 	log.Println("Done.")
 }
 
+// readCut reads the part of the cut model that lies within the processed section of the base model.
+func readCut(base *binvox.BinVOX, filename string) (*binvox.BinVOX, error) {
+	cut, err := binvox.Read(filename, 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
+	if err != nil {
+		return nil, err
+	}
+	dx, dy, dz := offset(base, cut)
+	window := func(start, count, delta int) (int, int) {
+		start += delta
+		if start < 0 {
+			if count > 0 {
+				count += start
+				if count <= 0 {
+					return 0, -1
+				}
+			}
+			start = 0
+		}
+		return start, count
+	}
+	sx, cx := window(*startX, *countX, dx)
+	sy, cy := window(*startY, *countY, dy)
+	sz, cz := window(*startZ, *countZ, dz)
+	if cx < 0 || cy < 0 || cz < 0 || sx >= cut.NX || sy >= cut.NY || sz >= cut.NZ {
+		return nil, fmt.Errorf("%q does not overlap the base model", filename)
+	}
+	return binvox.Read(filename, sx, sy, sz, cx, cy, cz)
+}
+
+// offset returns the offset that maps base indices to cut indices.
+func offset(base, cut *binvox.BinVOX) (dx, dy, dz int) {
+	vpmm := base.VoxelsPerMM()
+	dx = int(math.Round((base.TX - cut.TX) * vpmm))
+	dy = int(math.Round((base.TY - cut.TY) * vpmm))
+	dz = int(math.Round((base.TZ - cut.TZ) * vpmm))
+	return dx, dy, dz
+}
+
 // voxcut cuts the base voxels by the cut voxels and returns the newVoxels.
 // It accounts for different translation settings in the base and cutting voxels.
 func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error) {
@@ -134,16 +173,13 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	}
 
 	newVoxels = binvox.WhiteVoxelMap{}
-	vpmm := base.VoxelsPerMM()
 
 	// Map base indices to cut indices by taking into account the translations.
-	dx := int((base.TX - cut.TX) * vpmm)
-	dy := int((base.TY - cut.TY) * vpmm)
-	dz := int((base.TZ - cut.TZ) * vpmm)
+	dx, dy, dz := offset(base, cut)
 	log.Printf("Translating cut voxels by [%v,%v,%v]", dx, dy, dz)
 
 	keyFunc := func(v binvox.Key, vc binvox.Color) {
-		c, ok := cut.Get(v.X, v.Y, v.Z)
+		c, ok := cut.Get(v.X+dx, v.Y+dy, v.Z+dz)
 		if !ok { // Nothing to cut - keep voxel.
 			newVoxels[v] = struct{}{}
 			return
-- 
2.43.0


From 93ba346ca0ff8501dd58751c9020324ae8d8f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 21/67] fix: stop when a cutting model cannot be read instead
 of leaving it out

---
 cmd/voxcut/voxcut.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index d6e380d..7999d26 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -62,9 +62,16 @@ func main() {
 	}
 
 	for i := 1; i < flag.NArg(); i++ {
+		if _, err := os.Stat(flag.Arg(i)); os.IsNotExist(err) { // Empty models are not written.
+			log.Printf("skipping: %v", err)
+			continue
+		}
 		cut, err := readCut(base, flag.Arg(i))
 		if err != nil {
-			log.Printf("skipping: %v", err)
+			log.Fatal(err)
+		}
+		if cut == nil {
+			log.Printf("skipping: %v does not overlap the base model", flag.Arg(i))
 			continue
 		}
 
@@ -125,6 +132,7 @@ func main() {
 }
 
 // readCut reads the part of the cut model that lies within the processed section of the base model.
+// It returns nil if there is no such part.
 func readCut(base *binvox.BinVOX, filename string) (*binvox.BinVOX, error) {
 	cut, err := binvox.Read(filename, 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
 	if err != nil {
@@ -148,7 +156,7 @@ func readCut(base *binvox.BinVOX, filename string) (*binvox.BinVOX, error) {
 	sy, cy := window(*startY, *countY, dy)
 	sz, cz := window(*startZ, *countZ, dz)
 	if cx < 0 || cy < 0 || cz < 0 || sx >= cut.NX || sy >= cut.NY || sz >= cut.NZ {
-		return nil, fmt.Errorf("%q does not overlap the base model", filename)
+		return nil, nil
 	}
 	return binvox.Read(filename, sx, sy, sz, cx, cy, cz)
 }
-- 
2.43.0


From 6d109eda2c67d9224aeb3d20ce1b8e7ce28aea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 22/67] fix: do not race on the error of a failed STL merge

---
 stl/stl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl/stl.go b/stl/stl.go
index d004dfb..2cc1f7c 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -13,7 +13,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-	var mu sync.Mutex // protects mesh
+	var mu sync.Mutex // protects mesh and mergeErr
 	addFunc := func(meshToAdd *gl.Mesh) {
 		mu.Lock()
 		if mesh == nil {
@@ -30,7 +30,9 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 		wg.Add(1)
 		go func(filename string) {
 			if err := merge(filename, addFunc); err != nil {
+				mu.Lock()
 				mergeErr = err
+				mu.Unlock()
 			}
 			<-ch // release a worker
 			wg.Done()
-- 
2.43.0


From 04c2372e6905e79547cac635fdc34b6c9943d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 23/67] fix: merge STL files with at least one worker

---
 stl/stl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stl/stl.go b/stl/stl.go
index 2cc1f7c..b2892b3 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -10,6 +10,9 @@ import (
 
 // Merge merges the STL files using a worker pool of numWorkers.
 func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
+	if numWorkers < 1 {
+		numWorkers = 1
+	}
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-- 
2.43.0


From 708b05a377a825bb3eff351fa924c539d6870316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 24/67] fix: report an error when there are no STL files to
 merge

---
 stl/stl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl/stl.go b/stl/stl.go
index b2892b3..a4f4f10 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,6 +2,7 @@
 package stl
 
 import (
+	"errors"
 	"log"
 	"sync"
 
@@ -10,6 +11,9 @@ import (
 
 // Merge merges the STL files using a worker pool of numWorkers.
 func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
+	if len(files) == 0 {
+		return nil, errors.New("no STL files to merge")
+	}
 	if numWorkers < 1 {
 		numWorkers = 1
 	}
-- 
2.43.0


From 4aa89ba3b373a05567b1b6102696cf940e5c45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 25/67] fix: never overwrite a vsh file without the -f flag

---
 cmd/merge-binvox/merge-binvox.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index f70491b..dd86a25 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -31,12 +31,7 @@ func main() {
 		log.Fatalf("No files found matching %v*.binvox", *prefix)
 	}
 	outFile := *prefix + ".vsh"
-	var newFiles []string
-	for _, f := range files { // Quick sanity check
-		if f != outFile {
-			newFiles = append(newFiles, f)
-			continue
-		}
+	if _, err := os.Stat(outFile); err == nil { // Quick sanity check
 		if *force {
 			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
 		} else {
@@ -44,8 +39,8 @@ func main() {
 		}
 	}
 
-	log.Printf("Merging %v binvox files into %v...", len(newFiles), outFile)
-	vsh, err := vshell.Merge(newFiles)
+	log.Printf("Merging %v binvox files into %v...", len(files), outFile)
+	vsh, err := vshell.Merge(files)
 	if err != nil {
 		log.Fatalf("Merge: %v", err)
 	}
-- 
2.43.0


From 3e66d3c6612e538b44365612f8e6cfed27ac9675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 26/67] fix: recognize the output file of merge-stl when the
 prefix is not a clean path

---
 cmd/merge-stl/merge-stl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 2b86a6d..31098fa 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -33,7 +33,7 @@ func main() {
 	outFile := *prefix + ".stl"
 	var newFiles []string
 	for _, f := range files { // Quick sanity check
-		if f != outFile {
+		if filepath.Clean(f) != filepath.Clean(outFile) {
 			newFiles = append(newFiles, f)
 			continue
 		}
-- 
2.43.0


From c0927b2bd472b7f21740eca5c092d04b11570d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 27/67] fix: find the manifest anywhere in an SVX file and
 require it

---
 cmd/svx2stl/main.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 833b2af..9d9c2fb 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -60,20 +60,32 @@ func read(filename string) (*binvox.BinVOX, error) {
 	defer r.Close()
 
 	var sliceNameFmt string
-	for _, f := range r.File {
+	for _, f := range r.File { // The manifest can be anywhere in the file.
+		if f.Name != "manifest.xml" {
+			continue
+		}
 		rc, err := f.Open()
 		if err != nil {
-			log.Fatal(err)
+			return nil, fmt.Errorf("unable to open %q: %v", f.Name, err)
 		}
+		model, sliceNameFmt, err = parseManifest(rc)
+		if err != nil {
+			return nil, fmt.Errorf("parseManifest: %v", err)
+		}
+		rc.Close()
+	}
+	if model == nil {
+		return nil, fmt.Errorf("no manifest.xml in %q", filename)
+	}
 
+	for _, f := range r.File {
 		if f.Name == "manifest.xml" {
-			model, sliceNameFmt, err = parseManifest(rc)
-			if err != nil {
-				return nil, fmt.Errorf("parseManifest: %v", err)
-			}
-			rc.Close()
 			continue
 		}
+		rc, err := f.Open()
+		if err != nil {
+			log.Fatal(err)
+		}
 
 		var sliceNum int
 		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 {
-- 
2.43.0


From 6e5260b619db705a78c29acef5302cf2510b8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 28/67] fix: place the voxels of an SVX file at their size in
 millimeters

---
 cmd/svx2stl/main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 9d9c2fb..1ebed46 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -77,6 +77,15 @@ func read(filename string) (*binvox.BinVOX, error) {
 	if model == nil {
 		return nil, fmt.Errorf("no manifest.xml in %q", filename)
 	}
+	// The manifest has the size of one voxel, but a BinVOX has the size of its largest dimension.
+	maxDim := model.NX
+	if model.NY > maxDim {
+		maxDim = model.NY
+	}
+	if model.NZ > maxDim {
+		maxDim = model.NZ
+	}
+	model.Scale *= float64(maxDim)
 
 	for _, f := range r.File {
 		if f.Name == "manifest.xml" {
-- 
2.43.0


From ea4b40af6d43e1d9c0a92f1fa2ab53832c794bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 29/67] fix: make all slices of a model that is divided in the
 Z dimension

---
 stl2svx/agent/agent.go   |  5 ++++-
 stl2svx/master/master.go |  6 +++---
 stl2svx/stl/stl.go       | 18 ++++++++++--------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 6b237ba..fbd9e17 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -151,7 +151,10 @@ type voxelInfo struct {
 // then sends them to the imager.
 func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 	bv := bvi.bv
-	if err := bv.VoxelizeZ(bvi.mesh, zi); err != nil {
+	if zi < bvi.dz || zi >= bvi.dz+bv.NZ {
+		return // another subregion contains this slice.
+	}
+	if err := bv.VoxelizeZ(bvi.mesh, zi-bvi.dz); err != nil {
 		log.Printf("voxelize(%v): %v", zi, err)
 		return
 	}
diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index adf15dc..7ce6a52 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -53,7 +53,7 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	m.writeBlankImages(in, base)
 
 	var wg sync.WaitGroup
-	for z := 0; z < base.DimZ; z++ {
+	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
 			m.runAgent(ctx, in, z)
@@ -142,7 +142,7 @@ func (m *master) getIdleAgent() string {
 
 func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
-	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.DimZ)
+	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
 	m.zmu.Lock()
 	defer m.zmu.Unlock()
 	mf, err := m.zipFile.Create(outFile)
@@ -177,5 +177,5 @@ func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 		}
 	}
 	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.DimZ+1))
+	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
 }
diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index f243bce..4f7aad5 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -49,15 +49,17 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	vpmm := float64(dim) / scale // voxels per millimeter
 	mmpv := 1.0 / vpmm           // millimeters per voxel
 	modelDimInMM := mbb.Size()
-	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
-	dimX := newModelDimX / int(nX)
-	dimY := newModelDimY / int(nY)
-	dimZ := newModelDimZ / int(nZ)
-	if dimX == 0 || dimY == 0 || dimZ == 0 {
-		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+	const eps = 1e-6 // a rounding error must not add a voxel
+	newModelDimX := int(math.Ceil(modelDimInMM.X*vpmm - eps))
+	newModelDimY := int(math.Ceil(modelDimInMM.Y*vpmm - eps))
+	newModelDimZ := int(math.Ceil(modelDimInMM.Z*vpmm - eps))
+	if newModelDimX < int(nX) || newModelDimY < int(nY) || newModelDimZ < int(nZ) {
+		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
+	// Round up so that the subregions cover the entire model.
+	dimX := (newModelDimX + int(nX) - 1) / int(nX)
+	dimY := (newModelDimY + int(nY) - 1) / int(nY)
+	dimZ := (newModelDimZ + int(nZ) - 1) / int(nZ)
 	maxDim := dimX
 	if dimY > maxDim {
 		maxDim = dimY
-- 
2.43.0


From c33ef102583f33e944185f50def5aafc1bd60bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 30/67] fix: refuse jobs that cannot be sliced instead of
 ending the process

---
 stl2svx/agent/agent.go | 33 +++++++++++++++++++++------------
 stl2svx/stl/stl.go     | 29 ++++++++++++++++++++++-------
 2 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index fbd9e17..06f7f81 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -3,6 +3,7 @@ package agent
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"image"
 	"image/draw"
@@ -96,19 +97,27 @@ type bvInfo struct {
 // through the provided channel.
 // dimZ is the number of agents needed to output the images.
 func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
+	job := in.GetNewJobRequest()
+	if len(job.GetStlFiles()) == 0 {
+		return nil, errors.New("no STL files")
+	}
+	base, err := stl.New(job.GetStlFiles()[0], job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
+	if err != nil {
+		return nil, fmt.Errorf("stl.New: %v", err)
+	}
+	var meshes []*gl.Mesh
+	for _, stlFile := range job.GetStlFiles() {
+		mesh, err := stl.NewMesh(stlFile)
+		if err != nil {
+			return nil, fmt.Errorf("stl.NewMesh: %v", err)
+		}
+		meshes = append(meshes, mesh)
+	}
+
 	ch = make(chan *bvInfo)
 	go func() {
-		job := in.GetNewJobRequest()
-		var base *stl.STL
-		for i, stlFile := range job.GetStlFiles() {
-			stlMesh, err := stl.New(stlFile, job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
-			if err != nil {
-				log.Fatalf("stl.New: %v", err)
-			}
-			if i == 0 {
-				base = stlMesh
-			}
-			log.Printf("generateMR: i=%v, %v triangles", i, len(stlMesh.Mesh.Triangles))
+		for i, mesh := range meshes {
+			log.Printf("generateMR: i=%v, %v triangles", i, len(mesh.Triangles))
 
 			// Now dice it up.
 			for zi := 0; zi < int(job.GetNZ()); zi++ {
@@ -128,7 +137,7 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 								Scale: base.SubregionScale,
 							},
 							base: i == 0,
-							mesh: stlMesh.Mesh,
+							mesh: mesh,
 						}
 
 						log.Printf("generateMR: sending STL #%v to mapper", i)
diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index 4f7aad5..7b71245 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -2,6 +2,7 @@
 package stl
 
 import (
+	"errors"
 	"fmt"
 	"math"
 
@@ -29,14 +30,13 @@ type STL struct {
 // dim represents the number of voxels in the widest dimension.
 // nX, nY, nZ represent the number of subdivisions in each dimension.
 func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
-	var tris []*gl.Triangle
-	for _, t := range p.GetTriangles() {
-		tris = append(tris, gl.NewTriangleForPoints(
-			gl.V(t.V1.X, t.V1.Y, t.V1.Z),
-			gl.V(t.V2.X, t.V2.Y, t.V2.Z),
-			gl.V(t.V3.X, t.V3.Y, t.V3.Z)))
+	if dim < 1 || nX < 1 || nY < 1 || nZ < 1 {
+		return nil, fmt.Errorf("dim and number of divisions must be positive: dim=%v, n=[%v,%v,%v]", dim, nX, nY, nZ)
+	}
+	mesh, err := NewMesh(p)
+	if err != nil {
+		return nil, err
 	}
-	mesh := gl.NewTriangleMesh(tris)
 	mbb := mesh.BoundingBox()
 
 	scale := mbb.Max.X - mbb.Min.X
@@ -78,3 +78,18 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 		SubregionScale: subregionScale,
 	}, nil
 }
+
+// NewMesh parses a pb.STLFile and returns its mesh.
+func NewMesh(p *pb.STLFile) (*gl.Mesh, error) {
+	var tris []*gl.Triangle
+	for _, t := range p.GetTriangles() {
+		if t.GetV1() == nil || t.GetV2() == nil || t.GetV3() == nil {
+			return nil, errors.New("triangle without three vertices")
+		}
+		tris = append(tris, gl.NewTriangleForPoints(
+			gl.V(t.V1.X, t.V1.Y, t.V1.Z),
+			gl.V(t.V2.X, t.V2.Y, t.V2.Z),
+			gl.V(t.V3.X, t.V3.Y, t.V3.Z)))
+	}
+	return gl.NewTriangleMesh(tris), nil
+}
-- 
2.43.0


From 8da31e2975151a95c599cfb642d66bd5678b2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 31/67] fix: make slice images of the size that the manifest
 declares

---
 stl2svx/agent/agent.go   | 32 ++++++++++++++++----------------
 stl2svx/master/master.go |  2 +-
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 06f7f81..a6421e5 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -58,7 +58,7 @@ func New(ctx context.Context, address, masterAddress string) (*agent, error) {
 func (m *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (resp *pb.SliceJobResponse, imErr error) {
 	log.Printf("Agent processing slice z=%v...", in.GetZ())
 
-	ch, err := generateMR(in)
+	base, ch, err := generateMR(in)
 	if err != nil {
 		return nil, err
 	}
@@ -67,7 +67,7 @@ func (m *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (resp *pb.
 	var wg sync.WaitGroup
 	wg.Add(1)
 	go func() {
-		resp, imErr = imager(in, vxCh)
+		resp, imErr = imager(in, base, vxCh)
 		wg.Done()
 	}()
 
@@ -96,20 +96,20 @@ type bvInfo struct {
 // be performed by each mapper. It also sends all the data each mapper needs
 // through the provided channel.
 // dimZ is the number of agents needed to output the images.
-func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
+func generateMR(in *pb.SliceJobRequest) (base *stl.STL, ch chan *bvInfo, err error) {
 	job := in.GetNewJobRequest()
 	if len(job.GetStlFiles()) == 0 {
-		return nil, errors.New("no STL files")
+		return nil, nil, errors.New("no STL files")
 	}
-	base, err := stl.New(job.GetStlFiles()[0], job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
+	base, err = stl.New(job.GetStlFiles()[0], job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
 	if err != nil {
-		return nil, fmt.Errorf("stl.New: %v", err)
+		return nil, nil, fmt.Errorf("stl.New: %v", err)
 	}
 	var meshes []*gl.Mesh
 	for _, stlFile := range job.GetStlFiles() {
 		mesh, err := stl.NewMesh(stlFile)
 		if err != nil {
-			return nil, fmt.Errorf("stl.NewMesh: %v", err)
+			return nil, nil, fmt.Errorf("stl.NewMesh: %v", err)
 		}
 		meshes = append(meshes, mesh)
 	}
@@ -148,7 +148,7 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 		}
 		close(ch)
 	}()
-	return ch, nil
+	return base, ch, nil
 }
 
 type voxelInfo struct {
@@ -201,28 +201,28 @@ type pixelKey struct {
 // imager takes the voxels from voxelize and creates
 // a 2D image at the provided z height.
 // It outputs an image to disk.
-func imager(in *pb.SliceJobRequest, ch <-chan voxelInfo) (*pb.SliceJobResponse, error) {
-	job := in.GetNewJobRequest()
+func imager(in *pb.SliceJobRequest, base *stl.STL, ch <-chan voxelInfo) (*pb.SliceJobResponse, error) {
 	z := in.GetZ()
 	log.Printf("imager: z=%v", z)
 	pixels := make(map[pixelKey]bool)
 	for value := range ch {
-		base := value.Base
+		if value.X >= base.ModelDimX || value.Y >= base.ModelDimY {
+			continue // keep the boundary of the image empty.
+		}
 		// k := pixelKey{value.X, value.Y}
-		k := pixelKey{value.X, int(job.GetDim()) - 1 - value.Y} // mirror the Y axis
+		k := pixelKey{value.X, base.ModelDimY - 1 - value.Y} // mirror the Y axis
 		if v, ok := pixels[k]; ok {
 			if v {
-				pixels[k] = base
+				pixels[k] = value.Base
 			}
 		} else {
-			pixels[k] = base
+			pixels[k] = value.Base
 		}
 	}
 	log.Printf("imager(%v): processed %v voxels", z, len(pixels))
 
 	// Convert collected pixels into an image.
-	sz := int(job.GetDim())
-	rect := image.Rect(0, 0, sz+2, sz+2)
+	rect := image.Rect(0, 0, base.ModelDimX+2, base.ModelDimY+2)
 	img := image.NewGray(rect)
 	// Shapeways requires a single pixel boundary in every dimension!!!
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 7ce6a52..0863e25 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -161,7 +161,7 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 
 func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 	// For Shapeways, create a black base and a black top.
-	rect := image.Rect(0, 0, int(in.GetDim()+2), int(in.GetDim()+2))
+	rect := image.Rect(0, 0, base.ModelDimX+2, base.ModelDimY+2)
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
 	m.zmu.Lock()
-- 
2.43.0


From 3412f02cea22f13b59987e1ef3378ec59fd05b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 32/67] fix: name the slices in the manifest as they are named
 in the SVX file

---
 stl2svx/master/master.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 0863e25..77aaf44 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -152,10 +152,10 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	fmt.Fprintf(mf, `<?xml version="1.0"?>
 <grid version="1.0" gridSizeX="%v" gridSizeY="%v" gridSizeZ="%v" voxelSize="%v" subvoxelBits="8" originX="%v" originY="%v" originZ="%v" slicesOrientation="Y" >
   <channels>
-    <channel type="DENSITY" bits="8" slices="%v/%v-%v-%v-%v-%v-%%04d.png" />
+    <channel type="DENSITY" bits="8" slices="%v/out-%v-%v-%v-%v-%%04d.png" />
   </channels>
 </grid>
-`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
+`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
 	return nil
 }
 
-- 
2.43.0


From affbdfdd53f4729bca16bd0cd54d9747787ab86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 33/67] fix: do not mix the slices of concurrent jobs

---
 stl2svx/master/master.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 77aaf44..9e2991c 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -28,7 +28,10 @@ const (
 type master struct {
 	amu        sync.Mutex          // protects agents and idleAgents
 	idleAgents map[string]struct{} // just a map of idle agents
+}
 
+// svx is the SVX file of one job.
+type svx struct {
 	zmu     sync.Mutex  // protects zipFile
 	zipFile *zip.Writer // resulting SVX file
 }
@@ -47,22 +50,22 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	}
 
 	var zbuf bytes.Buffer
-	m.zipFile = zip.NewWriter(&zbuf)
+	s := &svx{zipFile: zip.NewWriter(&zbuf)}
 
-	m.writeManifest(in, base)
-	m.writeBlankImages(in, base)
+	s.writeManifest(in, base)
+	s.writeBlankImages(in, base)
 
 	var wg sync.WaitGroup
 	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, z)
+			m.runAgent(ctx, in, s, z)
 			wg.Done()
 		}(z)
 	}
 	wg.Wait()
 
-	if err := m.zipFile.Close(); err != nil {
+	if err := s.zipFile.Close(); err != nil {
 		return nil, err
 	}
 
@@ -80,7 +83,7 @@ func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest)
 }
 
 // runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
+func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z int) {
 	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
 	var conn *grpc.ClientConn
 	var address string
@@ -110,9 +113,9 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
 	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
 
 	log.Printf("runAgent(%v): writing %v to zip file...", z, outFile)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	f, err := m.zipFile.Create(outFile)
+	s.zmu.Lock()
+	defer s.zmu.Unlock()
+	f, err := s.zipFile.Create(outFile)
 	if err != nil {
 		log.Printf("runAgent(%v) error: %v", z, err)
 		return
@@ -140,12 +143,12 @@ func (m *master) getIdleAgent() string {
 	}
 }
 
-func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
+func (s *svx) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
 	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	mf, err := m.zipFile.Create(outFile)
+	s.zmu.Lock()
+	defer s.zmu.Unlock()
+	mf, err := s.zipFile.Create(outFile)
 	if err != nil {
 		return err
 	}
@@ -159,15 +162,15 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	return nil
 }
 
-func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
+func (s *svx) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 	// For Shapeways, create a black base and a black top.
 	rect := image.Rect(0, 0, base.ModelDimX+2, base.ModelDimY+2)
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
+	s.zmu.Lock()
+	defer s.zmu.Unlock()
 	outf := func(fn string) {
-		f, err := m.zipFile.Create(fn)
+		f, err := s.zipFile.Create(fn)
 		if err != nil {
 			log.Printf("error: %v", err)
 			return
-- 
2.43.0


From 10171fdab228ba994dfe1964e3f19cb34c93b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 34/67] fix: fail a job with a slice that could not be made

---
 stl2svx/master/master.go | 52 ++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 9e2991c..3e3ddef 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -13,6 +13,8 @@ import (
 	"time"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 	"github.com/gmlewis/stldice/v4/stl2svx/stl"
@@ -55,15 +57,29 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	s.writeManifest(in, base)
 	s.writeBlankImages(in, base)
 
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	var emu sync.Mutex // protects jobErr
+	var jobErr error
 	var wg sync.WaitGroup
 	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, s, z)
+			if err := m.runAgent(ctx, in, s, z); err != nil {
+				emu.Lock()
+				if jobErr == nil {
+					jobErr = fmt.Errorf("slice z=%v: %v", z, err)
+				}
+				emu.Unlock()
+				cancel() // The other slices are useless without this one.
+			}
 			wg.Done()
 		}(z)
 	}
 	wg.Wait()
+	if jobErr != nil {
+		return nil, jobErr
+	}
 
 	if err := s.zipFile.Close(); err != nil {
 		return nil, err
@@ -83,14 +99,17 @@ func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest)
 }
 
 // runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z int) {
+func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z int) error {
 	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
 	var conn *grpc.ClientConn
 	var address string
 	for {
-		address = m.getIdleAgent()
-		log.Printf("Assigning agent %v to slice z=%v", address, z)
 		var err error
+		address, err = m.getIdleAgent(ctx)
+		if err != nil {
+			return err
+		}
+		log.Printf("Assigning agent %v to slice z=%v", address, z)
 		conn, err = grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
 		if err != nil {
 			log.Printf("Unable to communicate with agent %v, finding another...", address)
@@ -101,13 +120,15 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z i
 	defer conn.Close()
 	c := pb.NewAgentClient(conn)
 	resp, err := c.SliceJob(ctx, req)
+	if status.Code(err) != codes.Unavailable {
+		m.amu.Lock()
+		m.idleAgents[address] = struct{}{} // Mark agent as idle
+		m.amu.Unlock()
+	}
 	if err != nil {
 		log.Printf("Error running SliceJob with agent %v: %v", address, err)
-		return
+		return err
 	}
-	m.amu.Lock()
-	m.idleAgents[address] = struct{}{} // Mark agent as idle
-	m.amu.Unlock()
 
 	// Write the PNG to the zip file.
 	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
@@ -117,17 +138,18 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z i
 	defer s.zmu.Unlock()
 	f, err := s.zipFile.Create(outFile)
 	if err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
-		return
-	}
-	if _, err := f.Write(resp.GetPngFile()); err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
+		return err
 	}
+	_, err = f.Write(resp.GetPngFile())
+	return err
 }
 
 // getIdleAgent sits in a loop waiting for an agent to become idle, then marks it busy and returns its address.
-func (m *master) getIdleAgent() string {
+func (m *master) getIdleAgent(ctx context.Context) (string, error) {
 	for {
+		if err := ctx.Err(); err != nil {
+			return "", err
+		}
 		m.amu.Lock()
 		var address string
 		if len(m.idleAgents) > 0 {
@@ -136,7 +158,7 @@ func (m *master) getIdleAgent() string {
 			}
 			delete(m.idleAgents, address)
 			m.amu.Unlock()
-			return address
+			return address, nil
 		}
 		m.amu.Unlock()
 		time.Sleep(idleWaitTime)
-- 
2.43.0


From 14c8e30fb10e1651c19fcd3d04cb552160e4f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 35/67] fix: refuse an ASCII STL file with an incomplete
 triangle

---
 server/stldice-slave/stldice-slave.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 0efa300..9ae2e61 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -182,6 +182,9 @@ func loadSTLA(r io.Reader) (*gl.Mesh, error) {
 			vertexes = append(vertexes, gl.Vector{f[0], f[1], f[2]})
 		}
 	}
+	if len(vertexes)%3 != 0 {
+		return nil, fmt.Errorf("%v vertexes do not make whole triangles", len(vertexes))
+	}
 	var triangles []*gl.Triangle
 	for i := 0; i < len(vertexes); i += 3 {
 		t := gl.Triangle{}
-- 
2.43.0


From 046a1a7e1db41e8dd03f535dc02fab090867eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 36/67] fix: send the mesh that GetSTLMesh makes

---
 server/stldice-slave/stldice-slave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 9ae2e61..e82e977 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -125,7 +125,7 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 			return nil, err
 		}
 	}
-	return &pb.GetSTLMeshReply{}, nil
+	return &pb.GetSTLMeshReply{StlFile: buf.Bytes()}, nil
 }
 
 func main() {
-- 
2.43.0


From 242a5c6d1926db379eb389d113aa058364f63c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 37/67] fix: refuse to dice into sections without voxels

---
 cmd/voxcut-dice/voxcut-dice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 41afde7..96d58e7 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -35,6 +35,9 @@ func main() {
 	if *binVOXPrefix == "" && *stlPrefix == "" && *voxPrefix == "" {
 		log.Fatal("Must specify at least one of -obinvox, -ostl, or -ovox")
 	}
+	if *size < 1 {
+		log.Fatalf("size must be positive: %v", *size)
+	}
 
 	base, err := binvox.Read(flag.Arg(0), 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
 	if err != nil {
-- 
2.43.0


From 34f2912569ebe86283803d174a1370a65b2ad4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 38/67] fix: do not stop dicing at a section that is cut away
 completely

---
 cmd/voxcut/voxcut.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 7999d26..aed531a 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -15,7 +15,6 @@ package main
 
 import (
 	"encoding/binary"
-	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -81,7 +80,8 @@ func main() {
 			log.Fatalf("arg #%v: cut with %q: %v", i, flag.Arg(i), err)
 		}
 		if len(base.WhiteVoxels) == 0 {
-			log.Fatal("result of cut leaves no non-zero voxels... no need to write file")
+			log.Print("result of cut leaves no non-zero voxels... no need to write file")
+			return // Not an error: voxcut-dice still has other sections to process.
 		}
 		log.Printf("Done cutting voxel model with %q.", flag.Arg(i))
 	}
@@ -177,7 +177,7 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 		return base.WhiteVoxels, nil // Nothing to cut.
 	}
 	if len(base.WhiteVoxels) == 0 {
-		return nil, errors.New("base must not be empty")
+		return nil, nil // Nothing left to cut from.
 	}
 
 	newVoxels = binvox.WhiteVoxelMap{}
-- 
2.43.0


From 7461fac81beffdf8710302e61375198a4abde526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 39/67] fix: refuse an incomplete STL file instead of leaving
 its triangles out

---
 cmd/stldice/stldice.go |  3 ++-
 stl/stl.go             | 38 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 07b12f8..d6bbac0 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -20,6 +20,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 var (
@@ -61,7 +62,7 @@ func main() {
 	prefixes := map[string]bool{}
 	for _, arg := range flag.Args() {
 		log.Printf("Loading file %q...", arg)
-		mesh, err := gl.LoadSTL(arg)
+		mesh, err := stl.Load(arg)
 		if err != nil {
 			log.Fatalf("Unable to load file %q: %v", arg, err)
 		}
diff --git a/stl/stl.go b/stl/stl.go
index a4f4f10..7c02eb0 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,8 +2,13 @@
 package stl
 
 import (
+	"bytes"
+	"encoding/binary"
 	"errors"
+	"fmt"
+	"io"
 	"log"
+	"os"
 	"sync"
 
 	gl "github.com/fogleman/fauxgl"
@@ -56,7 +61,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 
 // merge merges STL files using the provided addFunc.
 func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
-	mesh, err := gl.LoadSTL(filename)
+	mesh, err := Load(filename)
 	if err != nil {
 		return err
 	}
@@ -64,3 +69,34 @@ func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
 	addFunc(mesh)
 	return nil
 }
+
+// Load loads an STL file. Unlike gl.LoadSTL, it does not take an incomplete binary file
+// for an ASCII file without triangles.
+func Load(filename string) (*gl.Mesh, error) {
+	if err := checkSize(filename); err != nil {
+		return nil, err
+	}
+	return gl.LoadSTL(filename)
+}
+
+// checkSize returns an error if the file is a binary STL file of the wrong size.
+func checkSize(filename string) error {
+	f, err := os.Open(filename)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	info, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	buf := make([]byte, 84)
+	if _, err := io.ReadFull(f, buf); err != nil {
+		return fmt.Errorf("%v: unable to read header: %v", filename, err)
+	}
+	want := int64(binary.LittleEndian.Uint32(buf[80:]))*50 + 84
+	if info.Size() != want && !bytes.HasPrefix(bytes.TrimSpace(buf), []byte("solid")) {
+		return fmt.Errorf("%v: not an ASCII STL file, and a binary one would have %v bytes, not %v", filename, want, info.Size())
+	}
+	return nil
+}
-- 
2.43.0


From 9029746ed86cca7e26c174737713e28266383a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 40/67] fix: do not add the origin to the bounding box of a
 small binary STL file

---
 stl/stl.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stl/stl.go b/stl/stl.go
index 7c02eb0..9a7e4e0 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -71,12 +71,17 @@ func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
 }
 
 // Load loads an STL file. Unlike gl.LoadSTL, it does not take an incomplete binary file
-// for an ASCII file without triangles.
+// for an ASCII file without triangles, and the bounding box of the mesh is exact.
 func Load(filename string) (*gl.Mesh, error) {
 	if err := checkSize(filename); err != nil {
 		return nil, err
 	}
-	return gl.LoadSTL(filename)
+	mesh, err := gl.LoadSTL(filename)
+	if err != nil {
+		return nil, err
+	}
+	// gl.LoadSTL adds the origin to the bounding box of a file with fewer triangles than CPUs.
+	return gl.NewTriangleMesh(mesh.Triangles), nil
 }
 
 // checkSize returns an error if the file is a binary STL file of the wrong size.
-- 
2.43.0


From 3c229cf2bf8cf80886dc87c5cea7f4bf25ec2805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 41/67] fix: report an STL file that could not be written
 completely

---
 cmd/manifold-mesh/manifold-mesh.go    |  5 +++--
 cmd/marching-cubes/marching-cubes.go  |  5 +++--
 cmd/merge-stl/merge-stl.go            |  4 ++--
 cmd/svx2stl/main.go                   |  5 +++--
 cmd/voxcut/voxcut.go                  |  5 +++--
 server/stldice-slave/stldice-slave.go |  3 ++-
 stl/stl.go                            | 16 ++++++++++++++++
 7 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/cmd/manifold-mesh/manifold-mesh.go b/cmd/manifold-mesh/manifold-mesh.go
index 75cde21..0820b64 100644
--- a/cmd/manifold-mesh/manifold-mesh.go
+++ b/cmd/manifold-mesh/manifold-mesh.go
@@ -13,6 +13,7 @@ import (
 	"os"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 func main() {
@@ -35,8 +36,8 @@ func main() {
 
 	mesh := model.ManifoldMesh()
 	log.Printf("Writing file %q...", stlFile)
-	if err := mesh.SaveSTL(stlFile); err != nil {
-		log.Fatalf("SaveSTL: %v", err)
+	if err := stl.Save(stlFile, mesh); err != nil {
+		log.Fatalf("stl.Save: %v", err)
 	}
 
 	log.Println("Done.")
diff --git a/cmd/marching-cubes/marching-cubes.go b/cmd/marching-cubes/marching-cubes.go
index 694c738..e397fd2 100644
--- a/cmd/marching-cubes/marching-cubes.go
+++ b/cmd/marching-cubes/marching-cubes.go
@@ -14,6 +14,7 @@ import (
 	"path/filepath"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 func main() {
@@ -36,8 +37,8 @@ func main() {
 
 	mesh := model.MarchingCubes()
 	log.Printf("Writing file %q...", stlFile)
-	if err := mesh.SaveSTL(stlFile); err != nil {
-		log.Fatalf("SaveSTL: %v", err)
+	if err := stl.Save(stlFile, mesh); err != nil {
+		log.Fatalf("stl.Save: %v", err)
 	}
 
 	log.Println("Done.")
diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 31098fa..11d79be 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -50,8 +50,8 @@ func main() {
 		log.Fatalf("Merge: %v", err)
 	}
 
-	if err := mesh.SaveSTL(outFile); err != nil {
-		log.Fatalf("SaveSTL: %v", err)
+	if err := stl.Save(outFile, mesh); err != nil {
+		log.Fatalf("stl.Save: %v", err)
 	}
 
 	log.Printf("Done.")
diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 1ebed46..e69f76b 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -22,6 +22,7 @@ import (
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 func main() {
@@ -41,8 +42,8 @@ func main() {
 
 		mesh := model.MarchingCubes()
 		log.Printf("Writing file %q...", stlFile)
-		if err := mesh.SaveSTL(stlFile); err != nil {
-			log.Fatalf("SaveSTL: %v", err)
+		if err := stl.Save(stlFile, mesh); err != nil {
+			log.Fatalf("stl.Save: %v", err)
 		}
 	}
 
diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index aed531a..ad09b6e 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -24,6 +24,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 var (
@@ -123,8 +124,8 @@ func main() {
 		}
 
 		log.Printf("Writing file %v ...", *stlFile)
-		if err := mesh.SaveSTL(*stlFile); err != nil {
-			log.Fatalf("SaveSTL: %v", err)
+		if err := stl.Save(*stlFile, mesh); err != nil {
+			log.Fatalf("stl.Save: %v", err)
 		}
 	}
 
diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index e82e977..a5c65b0 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -15,6 +15,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 	pb "github.com/gmlewis/stldice/v4/stldice"
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
@@ -45,7 +46,7 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 	modelFilename := filename(in.GetVoxelRegion())
 	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
 	if err != nil { // No existing model of the same name. Write the new one.
-		if err := mesh.SaveSTL(modelFilename); err != nil {
+		if err := stl.Save(modelFilename, mesh); err != nil {
 			return nil, err
 		}
 		return &pb.AddSTLMeshReply{}, nil // Success.
diff --git a/stl/stl.go b/stl/stl.go
index 9a7e4e0..8c4c707 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -70,6 +70,22 @@ func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
 	return nil
 }
 
+// Save writes a binary STL file. Unlike mesh.SaveSTL, it reports a file that is incomplete,
+// for instance because the disk is full.
+func Save(filename string, mesh *gl.Mesh) error {
+	if err := mesh.SaveSTL(filename); err != nil {
+		return err
+	}
+	info, err := os.Stat(filename)
+	if err != nil {
+		return err
+	}
+	if want := int64(len(mesh.Triangles))*50 + 84; info.Mode().IsRegular() && info.Size() != want {
+		return fmt.Errorf("%v: only %v of %v bytes were written", filename, info.Size(), want)
+	}
+	return nil
+}
+
 // Load loads an STL file. Unlike gl.LoadSTL, it does not take an incomplete binary file
 // for an ASCII file without triangles, and the bounding box of the mesh is exact.
 func Load(filename string) (*gl.Mesh, error) {
-- 
2.43.0


From 5a3ba70de2dce54ee0e8c08a446e27b112943880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 42/67] fix: report an ASCII STL file with an incomplete
 triangle instead of panicking

---
 stl/stl.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stl/stl.go b/stl/stl.go
index 8c4c707..4383a78 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -88,11 +88,17 @@ func Save(filename string, mesh *gl.Mesh) error {
 
 // Load loads an STL file. Unlike gl.LoadSTL, it does not take an incomplete binary file
 // for an ASCII file without triangles, and the bounding box of the mesh is exact.
-func Load(filename string) (*gl.Mesh, error) {
+func Load(filename string) (mesh *gl.Mesh, err error) {
 	if err := checkSize(filename); err != nil {
 		return nil, err
 	}
-	mesh, err := gl.LoadSTL(filename)
+	defer func() {
+		// gl.LoadSTL panics when the last triangle of an ASCII file is incomplete.
+		if r := recover(); r != nil {
+			mesh, err = nil, fmt.Errorf("%v: malformed STL file: %v", filename, r)
+		}
+	}()
+	mesh, err = gl.LoadSTL(filename)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 88ad00d3e4a3eaaa6cee0e763f217236b00f6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 43/67] fix: refuse an incomplete STL file in stl2svx-client
 and stldice-mr

---
 cmd/stldice-mr/stldice-mr.go             | 3 ++-
 stl2svx/stl2svx-client/stl2svx-client.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index 979da4a..dcb03d9 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -21,6 +21,7 @@ import (
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
 	"github.com/gmlewis/stldice/v4/mr"
+	stlfile "github.com/gmlewis/stldice/v4/stl"
 	"github.com/golang/protobuf/proto"
 )
 
@@ -90,7 +91,7 @@ func generateMR(args []string) (chan interface{}, error) {
 
 		for i, arg := range args {
 			log.Printf("voxelize: loading file %q...", arg)
-			mesh, err := gl.LoadSTL(arg)
+			mesh, err := stlfile.Load(arg)
 			if err != nil {
 				log.Fatalf("Unable to load file %q: %v", arg, err)
 			}
diff --git a/stl2svx/stl2svx-client/stl2svx-client.go b/stl2svx/stl2svx-client/stl2svx-client.go
index ee60034..de01d0f 100644
--- a/stl2svx/stl2svx-client/stl2svx-client.go
+++ b/stl2svx/stl2svx-client/stl2svx-client.go
@@ -11,7 +11,7 @@ import (
 	"path/filepath"
 	"strings"
 
-	gl "github.com/fogleman/fauxgl"
+	stlfile "github.com/gmlewis/stldice/v4/stl"
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
@@ -79,7 +79,7 @@ func main() {
 func loadSTL(args []string) (out []*pb.STLFile, err error) {
 	for i, arg := range args {
 		log.Printf("loadSTL: loading file #%v: %v ...", i, arg)
-		mesh, err := gl.LoadSTL(arg)
+		mesh, err := stlfile.Load(arg)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 2cbd62f24306b09c9edc22de642bb34a88b63aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 44/67] fix: refuse an incomplete STL file in stldice-slave

---
 server/stldice-slave/stldice-slave.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index a5c65b0..3d511fe 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -168,6 +168,9 @@ func stlToMesh(buf []byte) (*gl.Mesh, error) {
 	if size == expectedSize {
 		return loadSTLB(f)
 	}
+	if !bytes.HasPrefix(bytes.TrimSpace(buf), []byte("solid")) {
+		return nil, fmt.Errorf("not an ASCII STL file, and a binary one would have %v bytes, not %v", expectedSize, size)
+	}
 	return loadSTLA(f)
 }
 
-- 
2.43.0


From 3d7693be32b42a4e11e35b049febb264bf9a6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 45/67] fix: neither crash nor drop the model when a mesh is
 added to an existing one

---
 server/stldice-slave/stldice-slave.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 3d511fe..b7a65da 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"log"
 	"net"
+	"os"
 	"strings"
 
 	gl "github.com/fogleman/fauxgl"
@@ -19,6 +20,8 @@ import (
 	pb "github.com/gmlewis/stldice/v4/stldice"
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 )
 
 const modelFilePrefix = "model"
@@ -44,9 +47,9 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 
 	// If there is no model on disk with the same coordinates, write the new binvox file.
 	modelFilename := filename(in.GetVoxelRegion())
-	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
-	if err != nil { // No existing model of the same name. Write the new one.
+	if _, err := os.Stat(modelFilename); os.IsNotExist(err) { // No existing model of the same name. Write the new one.
 		if err := stl.Save(modelFilename, mesh); err != nil {
+			os.Remove(modelFilename)
 			return nil, err
 		}
 		return &pb.AddSTLMeshReply{}, nil // Success.
@@ -54,7 +57,14 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 
 	// If there already is a model on disk, load it, add the newly-generated voxels to it, then save it back out,
 	// overwriting the old version.
+	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
+	if err != nil {
+		return nil, fmt.Errorf("unable to add to the existing model: %v", err)
+	}
 	newBase := voxelOp(base, addBV, true)
+	if newBase == nil {
+		return nil, status.Error(codes.Unimplemented, "adding to an existing model is not implemented")
+	}
 	if err := newBase.Write(modelFilename, 0, 0, 0, 0, 0, 0); err != nil {
 		return nil, err
 	}
@@ -83,6 +93,9 @@ func (s *server) SubSTLMesh(ctx context.Context, in *pb.SubSTLMeshRequest) (*pb.
 
 	// Cut the base model with this mesh, then save it back out, overwriting the old version.
 	newBase := voxelOp(base, subBV, false)
+	if newBase == nil {
+		return nil, status.Error(codes.Unimplemented, "subtracting from a model is not implemented")
+	}
 	if err := newBase.Write(modelFilename, 0, 0, 0, 0, 0, 0); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5424e4dd64b0784c4053e050ca4ad90ced41cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 46/67] fix: honour the -port flag of stldice-master and
 stldice-slave

---
 server/stldice-master/stldice-master.go | 2 ++
 server/stldice-slave/stldice-slave.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/server/stldice-master/stldice-master.go b/server/stldice-master/stldice-master.go
index cf892de..63fd08a 100644
--- a/server/stldice-master/stldice-master.go
+++ b/server/stldice-master/stldice-master.go
@@ -37,6 +37,8 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 }
 
 func main() {
+	flag.Parse()
+
 	lis, err := net.Listen("tcp", *port)
 	if err != nil {
 		log.Fatalf("failed to listen: %v", err)
diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index b7a65da..27e9471 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -143,6 +143,8 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 }
 
 func main() {
+	flag.Parse()
+
 	lis, err := net.Listen("tcp", *port)
 	if err != nil {
 		log.Fatalf("failed to listen: %v", err)
-- 
2.43.0


From 0f13947be1dc50a3fe66f4b7ff4cf5830de5acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 47/67] fix: write color voxels to binvox files instead of an
 empty model

---
 binvox/write.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binvox/write.go b/binvox/write.go
index 6f6f594..12e8350 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -38,7 +38,7 @@ data
 `
 
 func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
-	if len(b.WhiteVoxels) == 0 {
+	if len(b.WhiteVoxels) == 0 && len(b.ColorVoxels) == 0 {
 		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale); err != nil {
 			return 0, fmt.Errorf("unable to write header: %v", err)
 		}
@@ -104,6 +104,8 @@ func (b *BinVOX) encode(ch chan<- rle, lookup WhiteVoxelMap, sx, sy, sz, nx, ny,
 				c := gl.Black
 				if _, ok := lookup[k]; ok {
 					c = gl.White
+				} else if _, ok := b.ColorVoxels[k]; ok { // A binvox file has no colors.
+					c = gl.White
 				}
 				var newValue byte
 				if c.A > 0 && (c.R > 0.5 || c.G > 0.5 || c.B > 0.5) {
-- 
2.43.0


From 56459817966e158f94ab6e4cd88f36cafb47e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 48/67] fix: refuse STL files with malformed, misplaced or
 non-finite vertexes

---
 server/stldice-slave/stldice-slave.go | 15 +++++-
 stl/stl.go                            | 67 ++++++++++++++++++++++++++-
 2 files changed, 78 insertions(+), 4 deletions(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 27e9471..eb0a9d0 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -181,12 +181,23 @@ func stlToMesh(buf []byte) (*gl.Mesh, error) {
 
 	// parse ascii or binary stl
 	if size == expectedSize {
-		return loadSTLB(f)
+		mesh, err := loadSTLB(f)
+		if err != nil {
+			return nil, err
+		}
+		return mesh, stl.CheckFinite(mesh)
 	}
 	if !bytes.HasPrefix(bytes.TrimSpace(buf), []byte("solid")) {
 		return nil, fmt.Errorf("not an ASCII STL file, and a binary one would have %v bytes, not %v", expectedSize, size)
 	}
-	return loadSTLA(f)
+	if err := stl.CheckASCII(bytes.NewReader(buf)); err != nil {
+		return nil, err
+	}
+	mesh, err := loadSTLA(f)
+	if err != nil {
+		return nil, err
+	}
+	return mesh, stl.CheckFinite(mesh)
 }
 
 // parse ASCII STL data.
diff --git a/stl/stl.go b/stl/stl.go
index 4383a78..3be6c1a 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,13 +2,17 @@
 package stl
 
 import (
+	"bufio"
 	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
+	"strconv"
+	"strings"
 	"sync"
 
 	gl "github.com/fogleman/fauxgl"
@@ -102,11 +106,64 @@ func Load(filename string) (mesh *gl.Mesh, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := CheckFinite(mesh); err != nil {
+		return nil, fmt.Errorf("%v: %v", filename, err)
+	}
 	// gl.LoadSTL adds the origin to the bounding box of a file with fewer triangles than CPUs.
 	return gl.NewTriangleMesh(mesh.Triangles), nil
 }
 
-// checkSize returns an error if the file is a binary STL file of the wrong size.
+// CheckFinite returns an error if a coordinate of the mesh is not a finite number.
+func CheckFinite(mesh *gl.Mesh) error {
+	for i, t := range mesh.Triangles {
+		for _, v := range []gl.Vertex{t.V1, t.V2, t.V3} {
+			for _, f := range []float64{v.Position.X, v.Position.Y, v.Position.Z} {
+				if math.IsNaN(f) || math.IsInf(f, 0) {
+					return fmt.Errorf("triangle %v has a coordinate that is not finite: %v", i, v.Position)
+				}
+			}
+		}
+	}
+	return nil
+}
+
+// CheckASCII returns an error if a vertex of an ASCII STL file would be lost or misread by
+// gl.LoadSTL, which takes malformed numbers for 0 and only finds vertexes on lines of their own.
+func CheckASCII(r io.Reader) error {
+	var vertexes int
+	scanner := bufio.NewScanner(r)
+	for line := 1; scanner.Scan(); line++ {
+		if bytes.IndexByte(scanner.Bytes(), 0) >= 0 { // The header of a binary file may start with "solid", too.
+			return fmt.Errorf("line %v: not an ASCII STL file", line)
+		}
+		fields := strings.Fields(scanner.Text())
+		for i, f := range fields {
+			if i > 0 && strings.EqualFold(f, "vertex") && strings.EqualFold(fields[i-1], "loop") {
+				return fmt.Errorf("line %v: the vertex is not on a line of its own", line)
+			}
+		}
+		switch {
+		case len(fields) == 0:
+		case strings.EqualFold(fields[0], "vertex"):
+			if len(fields) != 4 || fields[0] != "vertex" {
+				return fmt.Errorf("line %v: malformed vertex", line)
+			}
+			for _, f := range fields[1:] {
+				if _, err := strconv.ParseFloat(f, 64); err != nil {
+					return fmt.Errorf("line %v: malformed vertex: %v", line, err)
+				}
+			}
+			vertexes++
+		case strings.EqualFold(fields[0], "endloop"):
+			if vertexes%3 != 0 {
+				return fmt.Errorf("line %v: the loop is not a triangle", line)
+			}
+		}
+	}
+	return scanner.Err()
+}
+
+// checkSize returns an error if the file is a binary STL file of the wrong size, or a malformed ASCII file.
 func checkSize(filename string) error {
 	f, err := os.Open(filename)
 	if err != nil {
@@ -122,8 +179,14 @@ func checkSize(filename string) error {
 		return fmt.Errorf("%v: unable to read header: %v", filename, err)
 	}
 	want := int64(binary.LittleEndian.Uint32(buf[80:]))*50 + 84
-	if info.Size() != want && !bytes.HasPrefix(bytes.TrimSpace(buf), []byte("solid")) {
+	if info.Size() == want {
+		return nil
+	}
+	if !bytes.HasPrefix(bytes.TrimSpace(buf), []byte("solid")) {
 		return fmt.Errorf("%v: not an ASCII STL file, and a binary one would have %v bytes, not %v", filename, want, info.Size())
 	}
+	if err := CheckASCII(io.MultiReader(bytes.NewReader(buf), f)); err != nil {
+		return fmt.Errorf("%v: %v", filename, err)
+	}
 	return nil
 }
-- 
2.43.0


From 0ebcda0a9e028257a911f46c3b16baad4c020efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 49/67] fix: merge empty models, which have no dimensions, into
 a vshell

---
 vshell/merge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vshell/merge.go b/vshell/merge.go
index 83e926d..64d43d5 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -45,6 +45,9 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	if vs == nil || bv == nil {
 		return fmt.Errorf("empty vs or bv")
 	}
+	if bv.Dim() == 0 && len(bv.WhiteVoxels) == 0 && len(bv.ColorVoxels) == 0 { // This is how an empty model is written.
+		return nil
+	}
 	var dx, dy, dz int
 	if len(vs.Voxels) > 0 {
 		if dx, dy, dz, err = vs.update(bv); err != nil {
-- 
2.43.0


From 3c69cc4c6c62de13a7fd1a16941315e27d114e07 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 50/67] fix: keep percent signs in file names in the commands
 of binvox-dice

---
 cmd/binvox-dice/binvox-dice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index b59255a..61ce732 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -96,7 +96,7 @@ func main() {
 
 	sFmt := "voxcut -ostl out%[1]v.stl"
 	for _, arg := range flag.Args() {
-		a := strings.TrimSuffix(arg, ".stl")
+		a := strings.ReplaceAll(strings.TrimSuffix(arg, ".stl"), "%", "%%")
 		sFmt += " " + a + "%[1]v.binvox"
 	}
 
-- 
2.43.0


From bf3d2f38dbac3a6d980fd22e0c2287a5e13161c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 51/67] fix: refuse to dice by a factor less than one instead
 of writing an empty plan

---
 cmd/binvox-dice/binvox-dice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index 61ce732..cd2e7f4 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -47,6 +47,9 @@ func main() {
 	if flag.NArg() < 1 {
 		log.Fatal("Must supply at least one filename")
 	}
+	if *factor < 1 {
+		log.Fatalf("factor (%v) must be at least 1", *factor)
+	}
 
 	parts := mbbRE.FindStringSubmatch(*mbbString)
 	if len(parts) != 7 {
-- 
2.43.0


From e1d38d639fbbe893efee69a83d17eaee0591585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:51 +0000
Subject: [PATCH 52/67] fix: read the slices of svx files beyond the width of
 the slice number

---
 cmd/svx2stl/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index e69f76b..a518854 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -19,12 +19,15 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"regexp"
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 	"github.com/gmlewis/stldice/v4/stl"
 )
 
+var widthRE = regexp.MustCompile(`%\d+d`)
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "Usage of %s:\n", filepath.Base(os.Args[0]))
@@ -88,6 +91,8 @@ func read(filename string) (*binvox.BinVOX, error) {
 	}
 	model.Scale *= float64(maxDim)
 
+	// A width is a minimum when printing but a maximum when scanning.
+	sliceScanFmt := widthRE.ReplaceAllString(sliceNameFmt, "%d")
 	for _, f := range r.File {
 		if f.Name == "manifest.xml" {
 			continue
@@ -98,7 +103,7 @@ func read(filename string) (*binvox.BinVOX, error) {
 		}
 
 		var sliceNum int
-		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 {
+		if n, err := fmt.Sscanf(f.Name, sliceScanFmt, &sliceNum); err != nil || n != 1 {
 			return nil, fmt.Errorf("unable to parse %q using %q", f.Name, sliceNameFmt)
 		}
 
-- 
2.43.0


From d038a30f4b0d9e75e2f187003cb7412c21142d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:08 +0000
Subject: [PATCH 53/67] fix: serialize changes of the models of the slave

---
 server/stldice-slave/stldice-slave.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index eb0a9d0..7407b26 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -13,6 +13,7 @@ import (
 	"net"
 	"os"
 	"strings"
+	"sync"
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
@@ -31,7 +32,9 @@ var (
 )
 
 // server is used to implement stldice.STLDiceServer
-type server struct{}
+type server struct {
+	mu sync.RWMutex // protects the model files
+}
 
 // Add an STL mesh to the voxels (possibly a subregion on the slave).
 func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.AddSTLMeshReply, error) {
@@ -45,6 +48,9 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 		return nil, err
 	}
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// If there is no model on disk with the same coordinates, write the new binvox file.
 	modelFilename := filename(in.GetVoxelRegion())
 	if _, err := os.Stat(modelFilename); os.IsNotExist(err) { // No existing model of the same name. Write the new one.
@@ -73,6 +79,9 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 
 // Subtract an STL mesh from the voxels (possibly a subregion on the slave).
 func (s *server) SubSTLMesh(ctx context.Context, in *pb.SubSTLMeshRequest) (*pb.SubSTLMeshReply, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// If there is no model on disk with the same coordinates, return an error.
 	modelFilename := filename(in.GetVoxelRegion())
 	// Load the model binvox file from disk.
@@ -107,7 +116,9 @@ func (s *server) SubSTLMesh(ctx context.Context, in *pb.SubSTLMeshRequest) (*pb.
 func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.GetSTLMeshReply, error) {
 	// Load the model binvox file from disk.
 	modelFilename := filename(in.GetVoxelRegion())
+	s.mu.RLock()
 	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
+	s.mu.RUnlock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4a688a998f7198cdb65ba6e41a50eceb6a5727f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 54/67] fix: quote file names in the printed commands

---
 cmd/binvox-dice/binvox-dice.go | 25 ++++++++++++++++---------
 cmd/stldice/stldice.go         | 19 ++++++++++++++-----
 cmd/voxcut-dice/voxcut-dice.go | 14 ++++++++++++++
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index cd2e7f4..a2f1139 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -33,7 +33,8 @@ var (
 	subY      = flag.Bool("suby", true, "Subdivide in the Y dimension (default=true)")
 	subZ      = flag.Bool("subz", false, "Subdivide in the Z dimension (default=false)")
 
-	mbbRE = regexp.MustCompile(`^\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\]\)]?\s*\-\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\)\]]?\s*$`)
+	plainRE = regexp.MustCompile(`^[\w./:=@%+,-]+$`)
+	mbbRE   = regexp.MustCompile(`^\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\]\)]?\s*\-\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\)\]]?\s*$`)
 )
 
 func main() {
@@ -97,12 +98,6 @@ func main() {
 		zf = 1
 	}
 
-	sFmt := "voxcut -ostl out%[1]v.stl"
-	for _, arg := range flag.Args() {
-		a := strings.ReplaceAll(strings.TrimSuffix(arg, ".stl"), "%", "%%")
-		sFmt += " " + a + "%[1]v.binvox"
-	}
-
 	var numCuts int
 	for zi := 0; zi < zf; zi++ {
 		z1 := gl.V(0, 0, llz).Lerp(gl.V(0, 0, urz), float64(zi)/float64(zf)).Z
@@ -115,7 +110,7 @@ func main() {
 				x2 := gl.V(0, 0, llx).Lerp(gl.V(0, 0, urx), float64(xi+1)/float64(xf)).Z
 				fmt.Println()
 				for _, arg := range flag.Args() {
-					fmt.Printf("binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, arg)
+					fmt.Printf("binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, quote(arg))
 				}
 
 				// Now output the voxcut commands to process all the .binvox files...
@@ -123,10 +118,22 @@ func main() {
 				if numCuts > 0 {
 					c = fmt.Sprintf("_%v", numCuts)
 				}
-				fmt.Printf(sFmt+"\n", c)
+				fmt.Printf("voxcut -ostl out%v.stl", c)
+				for _, arg := range flag.Args() {
+					fmt.Printf(" %v", quote(strings.TrimSuffix(arg, ".stl")+c+".binvox"))
+				}
+				fmt.Println()
 
 				numCuts++
 			}
 		}
 	}
 }
+
+// quote quotes a filename for the shell if necessary.
+func quote(s string) string {
+	if plainRE.MatchString(s) {
+		return s
+	}
+	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
+}
diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index d6bbac0..fcc5b2e 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -31,7 +31,8 @@ var (
 	nZ            = flag.Int("nz", 1, "Number of slices along the Z dimension")
 	smoothDegrees = flag.Float64("smooth", 0, "Degrees used for smoothing normals (0=no smoothing)")
 
-	mbbRE = regexp.MustCompile(`^\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\]\)]?\s*\-\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\)\]]?\s*$`)
+	plainRE = regexp.MustCompile(`^[\w./:=@%+,-]+$`)
+	mbbRE   = regexp.MustCompile(`^\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\]\)]?\s*\-\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\)\]]?\s*$`)
 )
 
 func main() {
@@ -107,19 +108,27 @@ func main() {
 	}
 	common := fmt.Sprintf("%v-%v-%v-%v", *dim, *nX, *nY, *nZ)
 	for _, v := range pfxs {
-		fmt.Printf("voxcut -ostl %[1]v-%[4]v%[3]v.stl %[2]v-%[4]v%[3]v.binvox", stlOutPrefix, strings.TrimSuffix(flag.Arg(0), ".stl"), v, common)
-		for _, arg := range flag.Args()[1:] {
-			fmt.Printf(" %v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)
+		fmt.Printf("voxcut -ostl %v", quote(fmt.Sprintf("%v-%v%v.stl", stlOutPrefix, common, v)))
+		for _, arg := range flag.Args() {
+			fmt.Printf(" %v", quote(fmt.Sprintf("%v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)))
 		}
 		fmt.Println()
 	}
 	if len(pfxs) > 1 { // Merge all the STL files back together
-		fmt.Printf("merge-stl -f -prefix %v-%v\n", stlOutPrefix, common)
+		fmt.Printf("merge-stl -f -prefix %v\n", quote(fmt.Sprintf("%v-%v", stlOutPrefix, common)))
 	}
 
 	log.Println("Done.")
 }
 
+// quote quotes a filename for the shell if necessary.
+func quote(s string) string {
+	if plainRE.MatchString(s) {
+		return s
+	}
+	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
+}
+
 // diceMesh dices a mesh into voxelized regions and writes the regions into .binvox files.
 // nx, ny, nz are the number of divisions for each dimension.
 // prefixes are the file prefixes that were generated.
diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 96d58e7..706ae62 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"os"
 	"os/exec"
+	"regexp"
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/binvox"
@@ -19,6 +20,8 @@ var (
 	binVOXPrefix = flag.String("obinvox", "", "Prefix for output binvox files")
 	stlPrefix    = flag.String("ostl", "", "Prefix for output stl files")
 	voxPrefix    = flag.String("ovox", "", "Prefix for output vox files")
+
+	plainRE = regexp.MustCompile(`^[\w./:=@%+,-]+$`)
 )
 
 func main() {
@@ -73,6 +76,9 @@ func main() {
 				args = append(args, flag.Args()...)
 
 				if *dryRun {
+					for i, arg := range args {
+						args[i] = quote(arg)
+					}
 					fmt.Println(strings.Join(args, " "))
 					continue
 				}
@@ -87,3 +93,11 @@ func main() {
 		}
 	}
 }
+
+// quote quotes a filename for the shell if necessary.
+func quote(s string) string {
+	if plainRE.MatchString(s) {
+		return s
+	}
+	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
+}
-- 
2.43.0


From d1047d9b3b740d33b95d81ec9383475f26fbe2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 55/67] fix: take the prefix of the merge commands literally

---
 cmd/merge-binvox/merge-binvox.go | 5 ++++-
 cmd/merge-stl/merge-stl.go       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index dd86a25..95fd936 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"regexp"
 
 	"github.com/gmlewis/stldice/v4/vshell"
 )
@@ -16,6 +17,8 @@ import (
 var (
 	force  = flag.Bool("f", false, "Force overwrite of output file")
 	prefix = flag.String("prefix", "out", "Prefix of files to merge and name of .vsh file to write (default='out')")
+
+	globRE = regexp.MustCompile(`[*?\[\\]`) // taken literally in a prefix
 )
 
 func main() {
@@ -26,7 +29,7 @@ func main() {
 	}
 	flag.Parse()
 
-	files, err := filepath.Glob(*prefix + "*.binvox")
+	files, err := filepath.Glob(globRE.ReplaceAllString(*prefix, `\$0`) + "*.binvox")
 	if err != nil {
 		log.Fatalf("No files found matching %v*.binvox", *prefix)
 	}
diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 11d79be..93d29b5 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"regexp"
 
 	"github.com/gmlewis/stldice/v4/stl"
 )
@@ -16,6 +17,8 @@ var (
 	force      = flag.Bool("f", false, "Force overwrite of output file")
 	numWorkers = flag.Int("num", 10, "Number of workers to use for work pool (default=10)")
 	prefix     = flag.String("prefix", "out", "Prefix of files to merge and name of .stl file to write (default='out')")
+
+	globRE = regexp.MustCompile(`[*?\[\\]`) // taken literally in a prefix
 )
 
 func main() {
@@ -26,7 +29,7 @@ func main() {
 	}
 	flag.Parse()
 
-	files, err := filepath.Glob(*prefix + "*.stl")
+	files, err := filepath.Glob(globRE.ReplaceAllString(*prefix, `\$0`) + "*.stl")
 	if err != nil {
 		log.Fatalf("No files found matching %v*.stl", *prefix)
 	}
-- 
2.43.0


From af85c42eaf221fce5267b3e38248c33c52941266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 56/67] fix: merge only the pieces of this division in the
 stldice script

---
 cmd/stldice/stldice.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index fcc5b2e..c81b8aa 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -115,7 +115,8 @@ func main() {
 		fmt.Println()
 	}
 	if len(pfxs) > 1 { // Merge all the STL files back together
-		fmt.Printf("merge-stl -f -prefix %v\n", quote(fmt.Sprintf("%v-%v", stlOutPrefix, common)))
+		out := fmt.Sprintf("%v-%v", stlOutPrefix, common) // The pieces start with out-, which no piece of another division does.
+		fmt.Printf("merge-stl -f -prefix %[1]v- && mv %[1]v-.stl %[1]v.stl\n", quote(out))
 	}
 
 	log.Println("Done.")
-- 
2.43.0


From 6f5ae6985ce6d89bf8a667af52ae580896746bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 57/67] fix: remove stale pieces in the stldice script

---
 cmd/stldice/stldice.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index c81b8aa..9f2acfd 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -107,6 +107,15 @@ func main() {
 		stlOutPrefix = strings.TrimSuffix(flag.Arg(0), ".stl")
 	}
 	common := fmt.Sprintf("%v-%v-%v-%v", *dim, *nX, *nY, *nZ)
+	for zi := 0; zi < *nZ; zi++ { // Pieces of an earlier run must not be merged: voxcut writes no empty pieces.
+		for yi := 0; yi < *nY; yi++ {
+			fmt.Print("rm -f")
+			for xi := 0; xi < *nX; xi++ {
+				fmt.Printf(" %v", quote(fmt.Sprintf("%v-%v-%02d-%02d-%02d.stl", stlOutPrefix, common, xi, yi, zi)))
+			}
+			fmt.Println()
+		}
+	}
 	for _, v := range pfxs {
 		fmt.Printf("voxcut -ostl %v", quote(fmt.Sprintf("%v-%v%v.stl", stlOutPrefix, common, v)))
 		for _, arg := range flag.Args() {
-- 
2.43.0


From 91bf559f7ca85bd6b4e058feb9cc359c3066d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 58/67] fix: voxcut leaves no stale output when the cut removes
 everything

---
 cmd/voxcut/voxcut.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index ad09b6e..13b202c 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -82,6 +82,11 @@ func main() {
 		}
 		if len(base.WhiteVoxels) == 0 {
 			log.Print("result of cut leaves no non-zero voxels... no need to write file")
+			for _, filename := range []string{*binVOXFile, *voxFile, *stlFile} {
+				if err := removeStale(filename); err != nil {
+					log.Fatalf("Unable to remove file %v: %v", filename, err)
+				}
+			}
 			return // Not an error: voxcut-dice still has other sections to process.
 		}
 		log.Printf("Done cutting voxel model with %q.", flag.Arg(i))
@@ -132,6 +137,20 @@ func main() {
 	log.Println("Done.")
 }
 
+// removeStale removes the result of an earlier run, but none of the models.
+func removeStale(filename string) error {
+	info, err := os.Stat(filename)
+	if err != nil {
+		return nil // There is none.
+	}
+	for _, arg := range flag.Args() {
+		if ai, err := os.Stat(arg); err == nil && os.SameFile(info, ai) {
+			return nil
+		}
+	}
+	return os.Remove(filename)
+}
+
 // readCut reads the part of the cut model that lies within the processed section of the base model.
 // It returns nil if there is no such part.
 func readCut(base *binvox.BinVOX, filename string) (*binvox.BinVOX, error) {
-- 
2.43.0


From 6997391e230e9acd304646d2f75f7679aaa4ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 59/67] fix: report when the script cannot be written to
 standard output

---
 cmd/binvox-dice/binvox-dice.go | 21 +++++++++++++--------
 cmd/stldice/stldice.go         | 24 +++++++++++++++---------
 cmd/voxcut-dice/voxcut-dice.go |  9 +++++++--
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index a2f1139..85334c4 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -11,6 +11,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"log"
@@ -81,9 +82,10 @@ func main() {
 		log.Fatalf("unable to parse mbb %v: %v", parts[6], err)
 	}
 
-	fmt.Println("#!/bin/bash -x")
-	fmt.Println("# Generated with command line:")
-	fmt.Printf("# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
+	out := bufio.NewWriter(os.Stdout)
+	fmt.Fprintln(out, "#!/bin/bash -x")
+	fmt.Fprintln(out, "# Generated with command line:")
+	fmt.Fprintf(out, "# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
 
 	xf := *factor
 	if !*subX {
@@ -108,9 +110,9 @@ func main() {
 			for xi := 0; xi < xf; xi++ {
 				x1 := gl.V(0, 0, llx).Lerp(gl.V(0, 0, urx), float64(xi)/float64(xf)).Z
 				x2 := gl.V(0, 0, llx).Lerp(gl.V(0, 0, urx), float64(xi+1)/float64(xf)).Z
-				fmt.Println()
+				fmt.Fprintln(out)
 				for _, arg := range flag.Args() {
-					fmt.Printf("binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, quote(arg))
+					fmt.Fprintf(out, "binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, quote(arg))
 				}
 
 				// Now output the voxcut commands to process all the .binvox files...
@@ -118,16 +120,19 @@ func main() {
 				if numCuts > 0 {
 					c = fmt.Sprintf("_%v", numCuts)
 				}
-				fmt.Printf("voxcut -ostl out%v.stl", c)
+				fmt.Fprintf(out, "voxcut -ostl out%v.stl", c)
 				for _, arg := range flag.Args() {
-					fmt.Printf(" %v", quote(strings.TrimSuffix(arg, ".stl")+c+".binvox"))
+					fmt.Fprintf(out, " %v", quote(strings.TrimSuffix(arg, ".stl")+c+".binvox"))
 				}
-				fmt.Println()
+				fmt.Fprintln(out)
 
 				numCuts++
 			}
 		}
 	}
+	if err := out.Flush(); err != nil {
+		log.Fatalf("Unable to write the script: %v", err)
+	}
 }
 
 // quote quotes a filename for the shell if necessary.
diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 9f2acfd..d2b02f5 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -7,6 +7,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"log"
@@ -96,7 +97,8 @@ func main() {
 	}
 
 	// Print out the commands needed to complete the operation.
-	fmt.Println("#!/bin/bash -x") // Do not use -e due to unwritten (empty) binvox files stopping the script.
+	out := bufio.NewWriter(os.Stdout)
+	fmt.Fprintln(out, "#!/bin/bash -x") // Do not use -e due to unwritten (empty) binvox files stopping the script.
 	var pfxs []string
 	for k := range prefixes {
 		pfxs = append(pfxs, k)
@@ -109,23 +111,27 @@ func main() {
 	common := fmt.Sprintf("%v-%v-%v-%v", *dim, *nX, *nY, *nZ)
 	for zi := 0; zi < *nZ; zi++ { // Pieces of an earlier run must not be merged: voxcut writes no empty pieces.
 		for yi := 0; yi < *nY; yi++ {
-			fmt.Print("rm -f")
+			fmt.Fprint(out, "rm -f")
 			for xi := 0; xi < *nX; xi++ {
-				fmt.Printf(" %v", quote(fmt.Sprintf("%v-%v-%02d-%02d-%02d.stl", stlOutPrefix, common, xi, yi, zi)))
+				fmt.Fprintf(out, " %v", quote(fmt.Sprintf("%v-%v-%02d-%02d-%02d.stl", stlOutPrefix, common, xi, yi, zi)))
 			}
-			fmt.Println()
+			fmt.Fprintln(out)
 		}
 	}
 	for _, v := range pfxs {
-		fmt.Printf("voxcut -ostl %v", quote(fmt.Sprintf("%v-%v%v.stl", stlOutPrefix, common, v)))
+		fmt.Fprintf(out, "voxcut -ostl %v", quote(fmt.Sprintf("%v-%v%v.stl", stlOutPrefix, common, v)))
 		for _, arg := range flag.Args() {
-			fmt.Printf(" %v", quote(fmt.Sprintf("%v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)))
+			fmt.Fprintf(out, " %v", quote(fmt.Sprintf("%v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)))
 		}
-		fmt.Println()
+		fmt.Fprintln(out)
 	}
 	if len(pfxs) > 1 { // Merge all the STL files back together
-		out := fmt.Sprintf("%v-%v", stlOutPrefix, common) // The pieces start with out-, which no piece of another division does.
-		fmt.Printf("merge-stl -f -prefix %[1]v- && mv %[1]v-.stl %[1]v.stl\n", quote(out))
+		merged := fmt.Sprintf("%v-%v", stlOutPrefix, common) // The pieces start with merged-, which no piece of another division does.
+		fmt.Fprintf(out, "merge-stl -f -prefix %[1]v- && mv %[1]v-.stl %[1]v.stl\n", quote(merged))
+	}
+
+	if err := out.Flush(); err != nil {
+		log.Fatalf("Unable to write the script: %v", err)
 	}
 
 	log.Println("Done.")
diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 706ae62..9aadc4b 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -3,6 +3,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"log"
@@ -51,8 +52,9 @@ func main() {
 		log.Fatalf("size (%v) larger than all dimensions (%v,%v,%v) - no need to dice", *size, base.NX, base.NY, base.NZ)
 	}
 
+	out := bufio.NewWriter(os.Stdout)
 	if *dryRun {
-		fmt.Println("#!/bin/bash -x")
+		fmt.Fprintln(out, "#!/bin/bash -x")
 	}
 
 	sizeArg := fmt.Sprintf("%04d", *size)
@@ -79,7 +81,7 @@ func main() {
 					for i, arg := range args {
 						args[i] = quote(arg)
 					}
-					fmt.Println(strings.Join(args, " "))
+					fmt.Fprintln(out, strings.Join(args, " "))
 					continue
 				}
 				log.Printf("\n\nRunning: %v", strings.Join(args, " "))
@@ -92,6 +94,9 @@ func main() {
 			}
 		}
 	}
+	if err := out.Flush(); err != nil {
+		log.Fatalf("Unable to write the script: %v", err)
+	}
 }
 
 // quote quotes a filename for the shell if necessary.
-- 
2.43.0


From 3f612aef3d1e2c49122f45709f932e80246419e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:46 +0000
Subject: [PATCH 60/67] fix: decide inside and outside by the faces, not by
 missing or smoothed vertex normals

---
 binvox/voxelize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index f887bd4..6d45fb3 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -313,7 +313,7 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 							lastX, lastSlope = x, slope
 							before, inCount, outCount = inside, 0, 0
 						}
-						switch d := tri.V1.Normal.Dot(gl.V(-1, 0, 0)); {
+						switch d := tri.Normal().Dot(gl.V(-1, 0, 0)); { // V1.Normal can be missing or smoothed.
 						case d > epsilon:
 							inCount++
 						case d < -epsilon:
-- 
2.43.0


From dc6b7d87071d6ae323d8d9734ae7eface0c0c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:40 +0000
Subject: [PATCH 61/67] fix: close the manifold mesh around voxels that meet
 only along an edge or at a corner

---
 binvox/manifold.go | 60 +++++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/binvox/manifold.go b/binvox/manifold.go
index 2435467..2b0f0d4 100644
--- a/binvox/manifold.go
+++ b/binvox/manifold.go
@@ -427,42 +427,22 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 		return apply(k, v2v, g0357)
 	case g0 | g1 | g2 | g6 | g7: // (inverse = g345 = case g3 | g4 | g5:)
 		return apply(k, mirrorZ(rotateTrisCounterClockwiseZ(v2v)), flipNormals(g0357))
-	case g3 | g4 | g5: // (inverse = g01267 = case g0 | g1 | g2 | g6 | g7:)
-		return apply(k, mirrorZ(rotateTrisCounterClockwiseZ(v2v)), g0357)
 
 	case g2 | g3 | g4:
 		return apply(k, v2v, g234)
-	case g0 | g1 | g5 | g6 | g7: // (inverse = g234 = case g2 | g3 | g4:)
-		return apply(k, v2v, flipNormals(g234))
 	case g0 | g6 | g7: // (inverse = g12345 = case g1 | g2 | g3 | g4 | g5:)
 		return apply(k, mirrorZ(v2v), flipNormals(g234))
-	case g1 | g2 | g3 | g4 | g5: // (inverse = g067 = case g0 | g6 | g7:)
-		return apply(k, mirrorZ(v2v), g234)
-	case g1 | g6 | g7: // (inverse = g02345 = case g0 | g2 | g3 | g4 | g5:)
-		return apply(k, mirrorX(v2v), flipNormals(g234))
-	case g0 | g2 | g3 | g4 | g5: // (inverse = g167 = case g1 | g6 | g7:)
-		return apply(k, mirrorX(v2v), g234)
 	case g0 | g1 | g6: // (inverse = g23457 = case g2 | g3 | g4 | g5 | g7:)
 		return apply(k, rotateTris180Z(v2v), g234)
-	case g2 | g3 | g4 | g5 | g7: // (inverse = g016 = case g0 | g1 | g6:)
-		return apply(k, rotateTris180Z(v2v), flipNormals(g234))
 	case g0 | g1 | g7: // (inverse = g23456 = case g2 | g3 | g4 | g5 | g6:)
 		return apply(k, rotateTris180Z(mirrorX(v2v)), flipNormals(g234))
-	case g2 | g3 | g4 | g5 | g6: // (inverse = g017 = case g0 | g1 | g7:)
-		return apply(k, rotateTris180Z(mirrorX(v2v)), g234)
 	case g2 | g4 | g5: // (inverse = g01367 = case g0 | g1 | g3 | g6 | g7:)
 		return apply(k, mirrorZ(rotateTris180Z(v2v)), flipNormals(g234))
-	case g0 | g1 | g3 | g6 | g7: // (inverse = g245 = case g2 | g4 | g5:)
-		return apply(k, mirrorZ(rotateTris180Z(v2v)), g234)
 	case g2 | g3 | g5: // (inverse = g01467 = case g0 | g1 | g4 | g6 | g7:)
 		return apply(k, rotateTris180Z(mirrorX(rotateTris180Z(v2v))), flipNormals(g234))
-	case g0 | g1 | g4 | g6 | g7: // (inverse = g235 = case g2 | g3 | g5:)
-		return apply(k, rotateTris180Z(mirrorX(rotateTris180Z(v2v))), g234)
 
 	case g0 | g1 | g6 | g7:
 		return apply(k, v2v, g0167)
-	case g2 | g3 | g4 | g5: // (inverse = g0167 = case g0 | g1 | g6 | g7:)
-		return apply(k, v2v, flipNormals(g0167))
 
 	case g0 | g1 | g5 | g6:
 		return apply(k, v2v, g0156)
@@ -542,12 +522,48 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 	case g0 | g2 | g4 | g5 | g7:
 		return apply(k, rotateTrisCounterClockwiseZ(v2v), g13456)
 
-	default:
-		log.Printf("grid2tris: k=%v: unhandled:\n%v", k, n)
+	default: // no template
+		return cone(k, n, v2v)
 	}
 	return nil
 }
 
+var (
+	// corners are the positions of g0 to g7 within a grid cell.
+	corners = [8]gl.Vector{
+		gl.V(-dd, dd, -dd), gl.V(dd, dd, -dd), gl.V(dd, -dd, -dd), gl.V(-dd, -dd, -dd),
+		gl.V(-dd, dd, dd), gl.V(dd, dd, dd), gl.V(dd, -dd, dd), gl.V(-dd, -dd, dd),
+	}
+	// cellFaces lists the corners of each face of a grid cell, counter-clockwise when seen from outside.
+	cellFaces = [6][4]int{{0, 1, 2, 3}, {7, 6, 5, 4}, {3, 2, 6, 7}, {1, 0, 4, 5}, {0, 3, 7, 4}, {2, 1, 5, 6}}
+)
+
+// cone connects the outlines on the faces of the grid cell with its center. Like the templates,
+// it joins voxels that are diagonally opposite on a face.
+func cone(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Triangle) {
+	add := func(from, to gl.Vector) {
+		tris = append(tris, gl.NewTriangleForPoints(v2v(k, 0, 0, 0), v2v(k, from.X, from.Y, from.Z), v2v(k, to.X, to.Y, to.Z)))
+	}
+	for _, f := range cellFaces {
+		in := func(i int) bool { return n&(g0<<uint(f[i%4])) != 0 }
+		mid := func(i int) gl.Vector { return corners[f[i%4]].Lerp(corners[f[(i+1)%4]], 0.5) }
+		center := corners[f[0]].Lerp(corners[f[2]], 0.5)
+		diagonal := in(0) != in(1) && in(0) == in(2) && in(1) == in(3)
+		for i := range f {
+			switch {
+			case diagonal && in(i) && !in(i+1):
+				add(mid(i+1), mid(i))
+			case diagonal:
+			case in(i) && !in(i+1):
+				add(center, mid(i))
+			case !in(i) && in(i+1):
+				add(mid(i), center)
+			}
+		}
+	}
+	return tris
+}
+
 // TriangleLess provides a Less function for sort.Slice.
 func TriangleLess(t []*gl.Triangle) func(a, b int) bool {
 	return func(a, b int) bool {
-- 
2.43.0


From 54651bc3271e657bc5a255ae6de546b6ce17fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:50 +0000
Subject: [PATCH 62/67] fix: keep the shell in place when merging pieces that
 are not on its grid

---
 vshell/merge.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 64d43d5..4ed563f 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -149,16 +149,15 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 	dx = int(math.Round((bv.TX - vs.TX) * vpmm))
 	dy = int(math.Round((bv.TY - vs.TY) * vpmm))
 	dz = int(math.Round((bv.TZ - vs.TZ) * vpmm))
-	if bv.TX < vs.TX {
-		vs.TX = bv.TX
-	} else {
-
+	// The origin moves by whole voxels: the shell must not drift when the pieces are not on one grid.
+	if dx < 0 {
+		vs.TX += float64(dx) / vpmm
 	}
-	if bv.TY < vs.TY {
-		vs.TY = bv.TY
+	if dy < 0 {
+		vs.TY += float64(dy) / vpmm
 	}
-	if bv.TZ < vs.TZ {
-		vs.TZ = bv.TZ
+	if dz < 0 {
+		vs.TZ += float64(dz) / vpmm
 	}
 
 	if dx >= 0 && dy >= 0 && dz >= 0 {
-- 
2.43.0


From 83adba09392c582ec900caef7795bcec460adfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:34 +0000
Subject: [PATCH 63/67] fix: keep a line break in a file name inside of the
 comment of a dicing script

---
 cmd/binvox-dice/binvox-dice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index 85334c4..cdff02e 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -85,7 +85,7 @@ func main() {
 	out := bufio.NewWriter(os.Stdout)
 	fmt.Fprintln(out, "#!/bin/bash -x")
 	fmt.Fprintln(out, "# Generated with command line:")
-	fmt.Fprintf(out, "# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
+	fmt.Fprintf(out, "# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.ReplaceAll(strings.Join(flag.Args(), " "), "\n", "\n#\t"))
 
 	xf := *factor
 	if !*subX {
-- 
2.43.0


From 079e19e120f0e024a4c6a2a22ce4fc144d3ebf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:15 +0000
Subject: [PATCH 64/67] fix: refuse to cut with a model of another resolution

---
 cmd/voxcut/voxcut.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 13b202c..7033735 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -158,6 +158,12 @@ func readCut(base *binvox.BinVOX, filename string) (*binvox.BinVOX, error) {
 	if err != nil {
 		return nil, err
 	}
+	if base.Dim() > 0 && cut.Dim() > 0 { // The indices only match if the voxels of both have the same size.
+		ratio := base.VoxelsPerMM() / cut.VoxelsPerMM()
+		if math.Abs(ratio-1)*float64(cut.Dim()) > 0.5 {
+			return nil, fmt.Errorf("%v has another resolution: %v instead of %v voxels per millimeter", filename, cut.VoxelsPerMM(), base.VoxelsPerMM())
+		}
+	}
 	dx, dy, dz := offset(base, cut)
 	window := func(start, count, delta int) (int, int) {
 		start += delta
-- 
2.43.0


From 26ac0008495793471818831d52a1070980d2024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:47 +0000
Subject: [PATCH 65/67] fix: refuse jobs with absurdly many voxels instead of
 ending the master and the agents

---
 stl2svx/stl/stl.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index 7b71245..10adfce 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -10,6 +10,12 @@ import (
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 )
 
+// Limits of a job: master and agents must not run out of memory because of an absurd dim.
+const (
+	maxPixels = 1 << 30 // pixels of a slice
+	maxSlices = 1 << 20
+)
+
 // STL represents a converted STL file to a mesh.
 type STL struct {
 	// MBB is the minimum bounding box for the entire STL file.
@@ -56,6 +62,9 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	if newModelDimX < int(nX) || newModelDimY < int(nY) || newModelDimZ < int(nZ) {
 		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
+	if newModelDimX > maxPixels/newModelDimY || newModelDimZ > maxSlices {
+		return nil, fmt.Errorf("too many voxels: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
+	}
 	// Round up so that the subregions cover the entire model.
 	dimX := (newModelDimX + int(nX) - 1) / int(nX)
 	dimY := (newModelDimY + int(nY) - 1) / int(nY)
-- 
2.43.0


From 9393f0715b35ae1f130e0ce918b9ac4148097edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:14 +0000
Subject: [PATCH 66/67] fix: stldice: refuse sizes and divisions that are not
 positive instead of writing nothing

---
 cmd/stldice/stldice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index d2b02f5..5a79101 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -47,6 +47,9 @@ func main() {
 	if flag.NArg() < 1 {
 		log.Fatal("Must supply at least one filename")
 	}
+	if *dim < 1 || *nX < 1 || *nY < 1 || *nZ < 1 {
+		log.Fatal("dim, nx, ny, and nz must be positive")
+	}
 	if *dim%*nX != 0 || *dim%*nY != 0 || *dim%*nZ != 0 {
 		log.Fatal("dim must be an integral multiple of nx, ny, and nz")
 	}
-- 
2.43.0


From 0e29d75e4a9991c7136da1eb07f2465e13aae8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:48 +0000
Subject: [PATCH 67/67] fix: svx2stl: refuse names that only start like the
 name of a slice

---
 cmd/svx2stl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index a518854..b80ad07 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -103,7 +103,7 @@ func read(filename string) (*binvox.BinVOX, error) {
 		}
 
 		var sliceNum int
-		if n, err := fmt.Sscanf(f.Name, sliceScanFmt, &sliceNum); err != nil || n != 1 {
+		if n, err := fmt.Sscanf(f.Name, sliceScanFmt+"\n", &sliceNum); err != nil || n != 1 { // The newline matches the end of the name.
 			return nil, fmt.Errorf("unable to parse %q using %q", f.Name, sliceNameFmt)
 		}
 
-- 
2.43.0

