From c7c0e04a50d2d34fc53041589aa5c217b25aea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 01/90] fix: read whole blocks of snapshot and segment files
 and report read errors

The block readers issued a single Read and ignored how much it returned, so a
short read (any block above 1 GB, network file systems, truncated files) left
the rest of the buffer zero; ReadGadget* also ignored every error.
---
 render/io/io.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 7f351b7..84f4204 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,7 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err = binary.Read(f, binary.LittleEndian, gh); err != nil { panic(err) }
 
 	h := gh.Standardize()
 	return h
@@ -168,7 +168,7 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err = binary.Read(f, binary.LittleEndian, gh); err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
@@ -202,10 +202,11 @@ func ReadGadgetParticlesAt(
 	}
 
 	if readF32 {
-		readVecAsByte(f, order, xs)
+		err = readVecAsByte(f, order, xs)
 	} else {
-		readVec64AsByte(f, order, xs)
+		err = readVec64AsByte(f, order, xs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 
@@ -218,22 +219,24 @@ func ReadGadgetParticlesAt(
 		panic(fmt.Sprintf("Internal error: Expected positions block to have header %d or %d, but actually has header %d\n (this is probably a binary file format issues)", f32Size, 2*f32Size, xSize))
 	}
 	if readF32 {
-		readVecAsByte(f, order, vs)
+		err = readVecAsByte(f, order, vs)
 	} else {
-		readVec64AsByte(f, order, vs)
+		err = readVec64AsByte(f, order, vs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 	_ = readInt32(f, order)
 
 	if idSize == 64 {
-		readInt64AsByte(f, order, ids)
+		err = readInt64AsByte(f, order, ids)
 	} else if idSize == 32 {
 		runtime.GC()
-		readInt32AsByte(f, order, ids)
+		err = readInt32AsByte(f, order, ids)
 		runtime.GC()
 	} else {
 		panic("ID size other than 32 bits or 64 bits given.")
 	}
+	if err != nil { panic(err) }
 	//_ = readInt32(f, order)
 	
 	// Convert gadget velocities out of code units.
@@ -415,7 +418,7 @@ func readVecAsByte(rd io.Reader, end binary.ByteOrder, buf []geom.Vec) error {
 	hd.Cap *= 12
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -442,7 +445,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	hd.Cap *= 24
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -504,7 +507,7 @@ func readInt64AsByte(rd io.Reader, end binary.ByteOrder, buf []int64) error {
 	hd.Cap *= 8
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -533,7 +536,7 @@ func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	hd.Cap *= 4
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
-- 
2.43.0


From 912ea32ace4a030a75d6fb592e3406e803414bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 02/90] fix: read big endian snapshots correctly

The header was always decoded as little endian and the byte swap of
double-precision vectors only touched four of the eight bytes.
---
 render/io/io.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 84f4204..9a22788 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,7 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	if err = binary.Read(f, binary.LittleEndian, gh); err != nil { panic(err) }
+	if err = binary.Read(f, order, gh); err != nil { panic(err) }
 
 	h := gh.Standardize()
 	return h
@@ -168,7 +168,7 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	if err = binary.Read(f, binary.LittleEndian, gh); err != nil { panic(err) }
+	if err = binary.Read(f, order, gh); err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
@@ -451,7 +451,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	if !isSysOrder(end) {
 		for i := 0; i < bufLen * 3; i++ {
 			for j := 0; j < 4; j++ {
-				idx1, idx2 := i*8 + j, i*8 + 3 - j
+				idx1, idx2 := i*8 + j, i*8 + 7 - j
 				byteBuf[idx1], byteBuf[idx2] = byteBuf[idx2], byteBuf[idx1]
 			}
 		}
-- 
2.43.0


From ce7c1aa0c0dcbf213beeb885264753e545c0f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 03/90] fix: report header errors when reading segment
 positions

ReadSheetPositionsAt returned nil when the segment could not be opened or its
header was bad, leaving the previous contents of the buffer in place.
---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 9a22788..42be90a 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -317,7 +317,7 @@ func ReadSheetHeaderAt(file string, hdBuf *SheetHeader) error {
 func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
-	if err != nil { return nil }
+	if err != nil { return err }
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
-- 
2.43.0


From b57de3fdbaec70021b1e09aa158a357c4c357165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 04/90] fix: close segment files on every error path of their
 readers

---
 render/io/io.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 42be90a..3472635 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -283,6 +283,8 @@ func readSheetHeaderAt(
 ) (*os.File, binary.ByteOrder, error) {
 	f, err := os.OpenFile(file, os.O_RDONLY, os.ModePerm)
 	if err != nil { return nil, binary.LittleEndian, err }
+	ok := false
+	defer func() { if !ok { f.Close() } }()
 
 	// order doesn't matter for this read, since flags are symmetric.
 	order := endianness(readInt32(f, binary.LittleEndian))
@@ -302,6 +304,7 @@ func readSheetHeaderAt(
 	if err != nil { return nil, binary.LittleEndian, err }
 
 	hdBuf.Count = hdBuf.CountWidth*hdBuf.CountWidth*hdBuf.CountWidth
+	ok = true
 	return f, order, nil
 }
 
@@ -318,6 +321,7 @@ func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
 	if err != nil { return err }
+	defer f.Close()
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
@@ -327,10 +331,7 @@ func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	// Go to block 4 in the file.
 	// The file pointer should already be here, but let's just be safe, okay?
 	f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{}))), 0)
-	if err := readVecAsByte(f, order, xsBuf); err != nil { return err }
-
-	if err := f.Close(); err != nil { return err }
-	return nil
+	return readVecAsByte(f, order, xsBuf)
 }
 
 // ReadVelocitiesAt reads the velocities in the given file into a buffer.
@@ -338,6 +339,7 @@ func ReadSheetVelocitiesAt(file string, vsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
 	if err != nil { return err }
+	defer f.Close()
 	if h.GridCount != int64(len(vsBuf)) {
 		return fmt.Errorf("Velocity buffer has length %d, but file %s has %d " + 
 			"vectors.", len(vsBuf), file, h.GridCount)
@@ -345,9 +347,7 @@ func ReadSheetVelocitiesAt(file string, vsBuf []geom.Vec) error {
 
 	f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{})) +
 		3 * 4 * len(vsBuf)), 0)
-	if err := readVecAsByte(f, order, vsBuf); err != nil { return err }
-	if err := f.Close(); err != nil { return err }
-	return nil
+	return readVecAsByte(f, order, vsBuf)
 }
 
 // Write writes a grid of position and velocity vectors to a file, defined
-- 
2.43.0


From df905a8a0149aaaacb818cebd77cda2ac58f5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 05/90] fix: close segment files after writing them and report
 the error

WriteSheet never closed its file, so a conversion kept one descriptor per
segment open until the garbage collector happened to run, and an error which
the file system only reports at close went unnoticed.
---
 render/io/io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/io/io.go b/render/io/io.go
index 3472635..b7558ff 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -365,6 +365,7 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	}
 
 	f, err := os.Create(file)
+	if err != nil { log.Fatal(err.Error()) }
 	endiannessFlag := int32(0)
 	order := endianness(endiannessFlag)
 
@@ -386,6 +387,9 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	if err = writeVecAsByte(f, order, vs); err != nil {
 		log.Fatalf(err.Error())
 	}
+	if err = f.Close(); err != nil {
+		log.Fatal(err.Error())
+	}
 }
 
 // CellBounds returns the bounds  of a given sheet aligned to the boundaries of
-- 
2.43.0


From 86efcd02210a1104a894a301f8eefb6f22a8a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 06/90] fix: convert the box width to output units along with
 the positions

XUnits was applied to the particle positions but not to the box width in the
segment headers, so with the documented XUnits = 1e-3 the particles filled a
corner of a box a thousand times too wide.
---
 render/main/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/main/main.go b/render/main/main.go
index 1de47f8..b71f69a 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -284,6 +284,7 @@ func createGrids(
 	for i := range hs {
 		hs[i] = *io.ReadGadgetHeader(catalogs[i], gadgetEndianness, con.InputFormat)
 		hs[i].Mass *= con.MUnits
+		hs[i].TotalWidth *= con.XUnits
 	}
 	log.Printf("Input header: %v\n", hs[0])
 
-- 
2.43.0


From d8fd774150fd8defcd8396656b94ecfde143d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 07/90] fix: refuse to convert incomplete snapshots

A snapshot directory with a missing (or duplicated) file was converted without
complaint, with the missing particles piled up at the origin.
---
 render/main/main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index b71f69a..20fac8e 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -299,6 +299,15 @@ func createGrids(
 	)
 	runtime.GC()
 
+	count := int64(0)
+	for _, h := range hs { count += h.Count }
+	if count != hs[0].TotalCount {
+		log.Fatalf(
+			"The input files contain %d particles, but their headers say " +
+				"that the snapshot has %d.", count, hs[0].TotalCount,
+		)
+	}
+
 	// Allocate position/velocity grids and sinle-file buffers.
 	xs = make([]geom.Vec, hs[0].TotalCount)
 	vs = make([]geom.Vec, hs[0].TotalCount)
-- 
2.43.0


From 4a12e125f427e0803056fd969b0d5dbab9bd75de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 08/90] fix: never drop particles when splitting the sheet into
 segments

If Cells does not divide the number of particles on a side, the last layers
were silently left out; if it is above 10, segments overwrote each other
because e.g. (1, 11, 0) and (11, 1, 0) shared the name sheet1110.dat.
---
 render/main/main.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index 20fac8e..f38787e 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -375,6 +375,13 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 
 	log.Println("Writing to directory", outDir)
 
+	if int(hd.CountWidth) % cells != 0 {
+		log.Fatalf(
+			"'Cells' is %d, which doesn't divide the %d particles on one " +
+				"side of the box.", cells, hd.CountWidth,
+		)
+	}
+
 	segmentWidth := int(hd.CountWidth) / cells
 	gridWidth := segmentWidth + 1
 
@@ -394,13 +401,16 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd.GridCount = int64(shd.GridWidth * shd.GridWidth * shd.GridWidth)
 	shd.Cells = int64(cells)
 
+	// Zero-padded once cells > 10, so that no two segments share a name.
+	digits := len(fmt.Sprint(cells - 1))
+
 	// Write the data. (x, y, z) indexes over the files.
 	for z := int64(0); z < shd.Cells; z++ {
 		for y := int64(0); y < shd.Cells; y++ {
 			for x := int64(0); x < shd.Cells; x++ {
 				copyToSegment(shd, xs, vs, xsSeg, vsSeg)
 				file := path.Join(outDir, fmt.Sprintf(
-					"sheet%d%d%d.dat", x, y, z,
+					"sheet%0*d%0*d%0*d.dat", digits, x, digits, y, digits, z,
 				))
 				io.WriteSheet(file, shd, xsSeg, vsSeg)
 				runtime.GC()
-- 
2.43.0


From 2f50570101d14c6fb9b3ccbd1e5f53927fda4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 09/90] fix: never give a region more pixels than the
 simulation box has

---
 render/box.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/box.go b/render/box.go
index 08bbd8a..29aa857 100644
--- a/render/box.go
+++ b/render/box.go
@@ -163,6 +163,8 @@ func newBox2D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		// A region as wide as the simulation box covers every pixel once.
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
@@ -199,6 +201,8 @@ func newBox3D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		// A region as wide as the simulation box covers every pixel once.
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
-- 
2.43.0


From 1783f4977941d3b195671d5c4a0bc5ae0e0a0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 10/90] fix: keep points on the edges of segments inside of
 them

The origin and width of a segment and the scaled positions of its
particles are rounded separately, so a particle on a pixel boundary could
end up outside of the pixels its segment covers, which crashed renders.
---
 render/geom/grid.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index f8bf107..fcc0864 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -165,13 +165,23 @@ func (vcb *CellBounds) ScaleVecsSegment(
 
 	for i := range vs {
 		for j := 0; j < 3; j++ { 
-			vs[i][j] *= scale
-			vs[i][j] = vs[i][j] - origin[j]
-			if vs[i][j] < 0 { vs[i][j] += fCells }
+			vs[i][j] = segmentCoord(
+				vs[i][j] * scale - origin[j], float32(vcb.Width[j]), fCells,
+			)
 		}
 	}
 }
 
+// segmentCoord periodically wraps a coordinate measured from the origin of a
+// segment with the given width into that segment. Rounding can move points on
+// the edges of a segment to just outside of it. These are moved back inside.
+func segmentCoord(x, width, cells float32) float32 {
+	if x < 0 { x += cells }
+	if x < width { return x }
+	if cells - x < x - width { return 0 }
+	return width * (1 - 1e-6)
+}
+
 func (vcb *CellBounds) ScaleVecsDomain(
 	cb *CellBounds, vs []Vec, cells int, boxWidth float64,
 ) {
@@ -200,10 +210,9 @@ func (vcb *CellBounds) ScaleVecsDomain(
 
 	for i := range vs {
 		for j := 0; j < 3; j++ { 
-			vs[i][j] *= scale
-			vs[i][j] = vs[i][j] - origin[j]
-			if vs[i][j] < 0 { vs[i][j] += fCells }
-			vs[i][j] += diff[j]
+			vs[i][j] = diff[j] + segmentCoord(
+				vs[i][j] * scale - origin[j], float32(vcb.Width[j]), fCells,
+			)
 		}
 	}
 }
-- 
2.43.0


From f2aae6e7b560caaec523bc58d598c63fa227eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 11/90] fix: don't print velocities when finalizing velocity
 grids

This debugging output divided by zero for grids of fewer than 30 pixels.
---
 render/density/buffer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 595258c..4375006 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -295,9 +295,6 @@ func (buf *velocityBuffer) FinalizedVectorBuffer() (xs, ys, zs []float32, ok boo
 	ys = make([]float32, len(buf.vecs))
 	zs = make([]float32, len(buf.vecs))
 	for i, vec := range buf.vecs {
-		if i % (len(buf.vecs) / 30) == 0 {
-			fmt.Println(i, buf.num[i], vec[0], vec[1], vec[2])
-		}
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		xs[i], ys[i], zs[i] = float32(vec[0])/n, float32(vec[1])/n, float32(vec[2])/n
-- 
2.43.0


From 1d45772ed04068bf29bd5430db5cbf4657480ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 12/90] fix: use all three velocity components in divergences

---
 render/density/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 4375006..d4b8a55 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -351,7 +351,7 @@ func (buf *divergenceBuffer) FinalizedScalarBuffer() (vals []float32, ok bool) {
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		vecs[0][i] = float32(vec[0])/n
-		vecs[1][i] = float32(vec[0])/n
+		vecs[1][i] = float32(vec[1])/n
 		vecs[2][i] = float32(vec[2])/n
 	} 
 
-- 
2.43.0


From d75a1f627c096f6ffa356838be6beeac7f85e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 13/90] fix: report errors when writing grids and flag vector
 grids as such

The header of vector grids was written before it was complete.
---
 render/io/output.go | 16 ++++++++++------
 render/main/main.go |  6 ++++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index cdf611d..92d8e50 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -142,7 +142,7 @@ func WriteBuffer(
 	buf density.Buffer,
 	cosmo CosmoInfo, render RenderInfo, loc LocationInfo,
 	wr io.Writer,
-) {
+) error {
 	hd := GridHeader{}
 	hd.EndiannessVersion = EndiannessVersionFlag(end)
 	hd.Type.HeaderSize = int64(unsafe.Sizeof(hd))
@@ -152,18 +152,22 @@ func WriteBuffer(
 	hd.Render = render
 	hd.Loc = loc
 
-	binary.Write(wr, end, &hd)
+	var grids [][]float32
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
-		binary.Write(wr, end, xs)
+		grids = [][]float32{xs}
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
-		binary.Write(wr, end, xs)
-		binary.Write(wr, end, ys)
-		binary.Write(wr, end, zs)
+		grids = [][]float32{xs, ys, zs}
 	} else {
 		panic("Buffer is neither scalar nor vector.")
 	}
+
+	if err := binary.Write(wr, end, &hd); err != nil { return err }
+	for _, grid := range grids {
+		if err := binary.Write(wr, end, grid); err != nil { return err }
+	}
+	return nil
 }
 
 func EndiannessVersionFlag(end binary.ByteOrder) uint64 {
diff --git a/render/main/main.go b/render/main/main.go
index f38787e..51af654 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -592,7 +592,6 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 
 		log.Printf("Writing to %s", out)
 		f, err := os.Create(out)
-		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
 		loc := io.NewLocationInfo(
@@ -608,7 +607,10 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			cBox.ProjectionAxis,
 		)
 
-		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
+		err = io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
+		if err != nil { log.Fatalf("Could not write %s: %s", out, err.Error()) }
+		err = f.Close()
+		if err != nil { log.Fatalf("Could not write %s: %s", out, err.Error()) }
 	}
 }
 
-- 
2.43.0


From a52c845dff13c1ab25e6cfe1c1612bd2e78594dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 14/90] fix: describe each grid in its own header

The particle and pixel counts were those of the config file, which are
zero if they are computed for each box, and quantities which cannot be
projected were flagged as projected.
---
 render/main/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 51af654..71773c4 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -602,9 +602,12 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			hd.Cosmo.OmegaL, hd.Cosmo.Z, hd.TotalWidth,
 		)
 
+		// Not every quantity can be projected.
+		axis := ""
+		if _, ok := box.ProjectionAxis(); ok { axis = cBox.ProjectionAxis }
+
 		renderInfo := io.NewRenderInfo(
-			con.Particles, con.TotalPixels, con.SubsampleLength,
-			cBox.ProjectionAxis,
+			box.Points(), box.Cells(), con.SubsampleLength, axis,
 		)
 
 		err = io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
-- 
2.43.0


From 05d256beca9fc02b636eabf1d6a8729d2902b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 15/90] fix: report errors when reading the first segment's
 header

---
 render/main/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 71773c4..d5cd7f0 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -658,7 +658,9 @@ func densitySetupIO(con *io.RenderConfig) (
 	files = make([]string, len(infos))
 	for i := range infos { files[i] = path.Join(con.Input, infos[i].Name()) }
 
-	io.ReadSheetHeaderAt(files[0], hd)
+	if len(files) == 0 { log.Fatalf("No files in 'Input', %s.", con.Input) }
+	err = io.ReadSheetHeaderAt(files[0], hd)
+	if err != nil { log.Fatal(err.Error()) }
 
 	return files, hd, fg
 }
@@ -696,7 +698,9 @@ func tetraHistSetupIO(con *io.TetraHistConfig) (
 	files = make([]string, len(infos))
 	for i := range infos { files[i] = path.Join(con.Input, infos[i].Name()) }
 
-	io.ReadSheetHeaderAt(files[0], hd)
+	if len(files) == 0 { log.Fatalf("No files in 'Input', %s.", con.Input) }
+	err = io.ReadSheetHeaderAt(files[0], hd)
+	if err != nil { log.Fatal(err.Error()) }
 
 	return files, hd, fg
 }
-- 
2.43.0


From 477a020d56ffd490ca81050e1e03f2cd51b2f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 16/90] fix: don't divide projected velocities by the depth of
 the projection

They are averaged over the samples in each pixel, so this made them too
small by the number of pixels along the line of sight.
---
 render/box.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/box.go b/render/box.go
index 29aa857..15d5487 100644
--- a/render/box.go
+++ b/render/box.go
@@ -503,10 +503,10 @@ func (w *segmentOverlap2D) Interpolate(
 	kOffset := w.domCb.Origin[kDim] - w.bufCb.Origin[kDim]
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.domCb.Width[kDim])
-
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
+	// Vectors are averaged by their counts instead.
+	if scalar { ptVal /= float64(w.domCb.Width[kDim]) }
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
@@ -602,10 +602,10 @@ func (w *domainOverlap2D) Interpolate(
 	}
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.bufCb.Width[kDim])
-
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
+	// Vectors are averaged by their counts instead.
+	if scalar { ptVal /= float64(w.bufCb.Width[kDim]) }
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
-- 
2.43.0


From ae6e7d4ef68800a98af3a301e7dc4b8d975f452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 17/90] fix: step along the z axis when taking z derivatives on
 edges

---
 render/geom/deriv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 81f1036..b254f14 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -95,7 +95,7 @@ func (g *Grid) wrapDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.wrapDeriv(idx, 1, pos, g.Width[2])
+					d.wrapDeriv(idx, g.Area, pos, g.Width[2])
 				}
 			}
 		}
@@ -132,7 +132,7 @@ func (g *Grid) edgesDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.edgeDeriv(idx, 1, pos)
+					d.edgeDeriv(idx, g.Area, pos)
 				}
 			}
 		}
-- 
2.43.0


From 5635f0baae4f263c92ff402e8280d1ac1b86e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 18/90] fix: don't change the options passed to Curl and
 Divergence

This also changed the default options for all later derivatives.
---
 render/geom/deriv.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index b254f14..7f59c06 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -323,12 +323,10 @@ func (g *GridLocation) Curl(
 	vecs, out [3][]float32,
 	op *DerivOptions,
 ) {
-	// We can't change and revert due to thread safety.
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	// The options belong to the caller, so only a copy can be changed.
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 
 	g.Deriv(vecs[2], out[0], 1, op)
 	g.Deriv(vecs[0], out[1], 2, op)
@@ -344,11 +342,9 @@ func (g *GridLocation) Divergence(
 	vecs [3][]float32, out []float32,
 	op *DerivOptions,
 ) {
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 	g.Deriv(vecs[0], out, 0, op)
 	op.Op = Add
 	g.Deriv(vecs[1], out, 1, op)
-- 
2.43.0


From f37a7fbac3ff13f2769a4172f2901b5200d23e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 19/90] fix: refuse to take fourth order derivatives of narrow
 grids

The stencil read pixels of neighbouring rows instead.
---
 render/geom/deriv.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 7f59c06..aba0488 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -34,6 +34,12 @@ func (g *GridLocation) Deriv(
 			"derivatives, not %d order.", opt.Order)
 	}
 
+	wraps := opt.Periodic && g.Cells == g.Width[axis]
+	if !wraps && g.Width[axis] < opt.Order + 1 || g.Width[axis] < opt.Order {
+		log.Fatalf("A width of %d is too narrow for an order %d derivative.",
+			g.Width[axis], opt.Order)
+	}
+
 	lBounds := [3]int{0, 0, 0}
 	uBounds := g.Width
 	lBounds[axis] += opt.Order / 2
@@ -58,7 +64,7 @@ func (g *GridLocation) Deriv(
 		}
 	}
 	
-	if !opt.Periodic || g.Cells !=  g.Width[axis]{
+	if !wraps {
 		g.edgesDeriv(axis, opt, lBounds, uBounds, d)
 	} else {
 		g.wrapDeriv(axis, opt, lBounds, uBounds, d)
-- 
2.43.0


From 3098052fe1a6af7015f8cc6f7dd51ea040013c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 20/90] fix: start regions of balls which touch the edge of the
 box at zero

They started at the far end of the box, which the bounds of boxes don't
allow and which labels their pixels wrongly.
---
 render/io/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 39f8354..0450fb9 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -391,19 +391,19 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 
 	box.XWidth, box.YWidth, box.ZWidth = 2 * rad, 2 * rad, 2 * rad
 
-	if ball.X > rad {
+	if ball.X >= rad {
 		box.X = ball.X - rad
 	} else {
 		box.X = ball.X - rad + totalWidth
 	}
 
-	if ball.Y > rad {
+	if ball.Y >= rad {
 		box.Y = ball.Y - rad
 	} else {
 		box.Y = ball.Y - rad + totalWidth
 	}
 
-	if ball.Z > rad {
+	if ball.Z >= rad {
 		box.Z = ball.Z - rad
 	} else {
 		box.Z = ball.Z - rad + totalWidth
-- 
2.43.0


From b092388a3be2e47eaa2a5c16f5f540b9d7f5312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 21/90] fix: accept the documented ProjectionAxis option of
 balls

---
 render/io/config.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index 0450fb9..5cf975c 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -345,6 +345,7 @@ type BallConfig struct {
 
 	// Optional
 	RadiusMultiplier float64
+	ProjectionAxis string
 	Name string
 }
 
@@ -382,6 +383,19 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	tmp := ball.ProjectionAxis
+	ball.ProjectionAxis = strings.Trim(strings.ToUpper(ball.ProjectionAxis), " ")
+	if ball.ProjectionAxis != "" &&
+		ball.ProjectionAxis != "X" &&
+		ball.ProjectionAxis != "Y" &&
+		ball.ProjectionAxis != "Z" {
+
+		return fmt.Errorf(
+			"ProjectionAxis of Ball '%s' must be one of [X | Y | Z]. '%s' is " +
+				"not recognized.", name, tmp,
+		)
+	}
+
 	return nil
 }
 
@@ -410,6 +424,7 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 	}
 
 	box.Name = ball.Name
+	box.ProjectionAxis = ball.ProjectionAxis
 
 	return box
 }
-- 
2.43.0


From 00513fc9b56a58f7eff00df7be6314c24ca54371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 22/90] fix: refuse subsampling lengths which don't fit the
 segments

The old length was checked instead of the new one, and lengths which don't
divide the width of a segment silently lost the particles in the remainder.
---
 render/hist.go   | 9 +++++++--
 render/render.go | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 6f5e5d8..8ccda91 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -101,8 +101,13 @@ func NewHistManager(
 }
 
 func (man *HistManager) Subsample(skip int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(skip) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", skip)
+	} else if int(man.hd.SegmentWidth) % skip != 0 {
+		log.Fatalf(
+			"Skip increment is %d, must divide the segment width, %d.",
+			skip, man.hd.SegmentWidth,
+		)
 	}
 
 	man.skip = skip
diff --git a/render/render.go b/render/render.go
index 9740a29..1c9bc12 100644
--- a/render/render.go
+++ b/render/render.go
@@ -215,8 +215,13 @@ func (r *renderer) initWorkspaces(man *Manager) {
 func (man *Manager) Log(flag bool) { man.log = flag }
 
 func (man *Manager) Subsample(subsampleLength int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(subsampleLength) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", subsampleLength)
+	} else if int(man.hd.SegmentWidth) % subsampleLength != 0 {
+		log.Fatalf(
+			"Skip increment is %d, must divide the segment width, %d.",
+			subsampleLength, man.hd.SegmentWidth,
+		)
 	}
 
 	man.skip = subsampleLength
-- 
2.43.0


From a86b7c8d77e18d6d62ad33e7e919ce32002e3d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 23/90] fix: report errors when reading segments into
 histograms

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 8ccda91..10b335f 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -172,7 +172,8 @@ func (man *HistManager) HistFromFile(file string, info *HistInfo) error {
 	for bi := range man.boxes {
 		if !histIntersect(&man.hd, &man.boxes[bi]) { continue }
 
-		io.ReadSheetPositionsAt(file, man.xs)
+		err = io.ReadSheetPositionsAt(file, man.xs)
+		if err != nil { return err }
 
 		for id := 0; id < man.workers; id++ {
 			go man.chanHistogram(id, &man.boxes[bi], info, out)
-- 
2.43.0


From 1e57133afaefc92ad20c4cc5a7f6a946862909e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 24/90] fix: give every subsampled cube of a histogram to a
 worker

---
 render/hist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 10b335f..21ab3fa 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -245,13 +245,13 @@ func (man *HistManager) chanHistogram(
 	// Evaluate whatever quantity is being measured.
 	switch strings.ToLower(man.quantity) {
 	case strings.ToLower("Density"):
+		cube := 0
 		for z := 0; z < segWidth; z += man.skip {
 			for y := 0; y < segWidth; y += man.skip {
 				for x := 0; x < segWidth; x += man.skip {
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
-					if idx%(man.skip*man.skip*man.skip*man.workers) != worker {
-						continue
-					}
+					cube++
+					if cube%man.workers != worker { continue }
 
 					if !man.cubeIntersects(idx) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
-- 
2.43.0


From 0d79ffc589bed35d1d847e48177b9fc13f79a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 25/90] fix: only leave cubes out of histograms which are
 outside of the box

---
 render/hist.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 21ab3fa..a645f92 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -223,8 +223,8 @@ func intersect1D(a, aSpan, b, bSpan, L float64) bool {
 // can be within [0, 2*L).
 func contains1D(a, aSpan, b, L float64) bool {
 	if b >= L { b -= L }
-	return (b > a && a + aSpan > b) ||
-		(b < a && a + aSpan - L > b)
+	return (b >= a && a + aSpan >= b) ||
+		(b < a && a + aSpan - L >= b)
 }
 
 // chanHistogram is a worker function run on a single thread which constructs
@@ -253,7 +253,7 @@ func (man *HistManager) chanHistogram(
 					cube++
 					if cube%man.workers != worker { continue }
 
-					if !man.cubeIntersects(idx) { continue }
+					if !man.cubeIntersects(idx, box) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
 						man.getDensities(idx, dir, box, vecBuf, qs, inBox)
 						histogram(qs, inBox, info, hist)
@@ -268,9 +268,9 @@ func (man *HistManager) chanHistogram(
 	out <- worker
 }
 
-// tetIntersects returns true if the cube at idx intersects with the currently
-// loaded sheet.
-func (man *HistManager) cubeIntersects(idx int) bool {
+// cubeIntersects returns true if the cube at idx of the currently loaded sheet
+// intersects with box.
+func (man *HistManager) cubeIntersects(idx int, box *HistBox) bool {
 	w := int(man.hd.GridWidth)
 	ix := idx % w
 	iy := (idx / w) % w
@@ -288,8 +288,8 @@ func (man *HistManager) cubeIntersects(idx int) bool {
 
 	for k := 0; k < 3; k++ {
 		if !intersect1D(
-			float64(man.hd.Origin[k]), float64(man.hd.Width[k]),
-			float64(origin[k]), float64(span[k]), man.hd.TotalWidth,
+			float64(origin[k]), float64(span[k]),
+			box.Origin[k], box.Span[k], man.hd.TotalWidth,
 		) {
 			return false
 		}
@@ -304,9 +304,9 @@ func (man *HistManager) cubeBoundingBox(
 	w, L := int(man.hd.GridWidth), float32(man.hd.TotalWidth)
 	origin, span = man.xs[ix + iy*w + iz*w*w], geom.Vec{ }
 
-	for dz := 0; dz < jump; dz += jump {
-		for dy := 0; dy < jump; dy += jump {
-			for dx := 0; dx < jump; dx += jump {
+	for dz := 0; dz <= jump; dz += jump {
+		for dy := 0; dy <= jump; dy += jump {
+			for dx := 0; dx <= jump; dx += jump {
 				// Get the vector in each corner of the Lagrangian cube.
 				x, y, z := ix + dx, iy + dy, iz + dz
 				vec := man.xs[x + y*w + z*w*w]
@@ -323,9 +323,9 @@ func (man *HistManager) cubeBoundingBox(
 					if delta > 0 && delta > span[k] {
 						span[k] = delta
 					} else if delta < 0 {
-						origin[k] -= delta
+						origin[k] += delta
 						if origin[k] < 0 { origin[k] += L }
-						span[k] += delta
+						span[k] -= delta
 					}
 				}
 			}
-- 
2.43.0


From 4167817f22b08cdf964047ef39196cc5db4a6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 26/90] fix: sample tetrahedra which cross the edge of the box
 where they are

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index a645f92..1992873 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -358,6 +358,7 @@ func (man *HistManager) getDensities(
 		&man.xs[idxBuf[0]], &man.xs[idxBuf[1]],
 		&man.xs[idxBuf[2]], &man.xs[idxBuf[3]],
 	)
+	man.periodizeTetra(&tet, L)
 	
 	bufIdx := rand.Int63n(int64(len(man.unitBufs)))
 	tet.DistributeTetra(man.unitBufs[bufIdx], vecBuf)
@@ -409,7 +410,7 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 func (man *HistManager) periodizeTetra(tet *geom.Tetra, L float32) {
 	for i := 1; i < 4; i++ {
 		for k := 0; k < 3; k++ {
-			delta := tet.Corners[i][k] - tet.Corners[i][0]
+			delta := tet.Corners[i][k] - tet.Corners[0][k]
 			if delta > L/2 { tet.Corners[i][k] -= L }
 			if delta < -L/2 { tet.Corners[i][k] += L }
 		}
-- 
2.43.0


From a18dd662083d10fd92833557efc27b59f21f873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 27/90] fix: report errors when writing histograms

---
 render/main/main.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index d5cd7f0..93b3d38 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -833,16 +833,34 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 
 		log.Printf("Writing to %s", out)
 		f, err := os.Create(out)
-		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
-		fmt.Fprintf(f, "# %s histogram ranging from %g to %g " +
-			"# with %d bins (%s scaled).\n", con.Quantity, con.HistMin,
-			con.HistMax, con.HistBins, strings.ToLower(con.HistScale))
-		fmt.Fprintf(f, "# Column 0 - bin centers.\n")
-		fmt.Fprintf(f, "# Column 1 - bin counts.\n")
-		for j := range box.Counts {
-			fmt.Fprintf(f, "%8.4g %d\n", box.Centers[j], box.Counts[j])
-		}
+		err = writeHist(f, con, &box)
+		if err != nil { log.Fatalf("Could not write %s: %s", out, err.Error()) }
+		err = f.Close()
+		if err != nil { log.Fatalf("Could not write %s: %s", out, err.Error()) }
 	}	
 }
+
+// writeHist writes the histogram of a box to f.
+func writeHist(
+	f *os.File, con *io.TetraHistConfig, box *render.HistBox,
+) error {
+	_, err := fmt.Fprintf(f, "# %s histogram ranging from %g to %g " +
+		"# with %d bins (%s scaled).\n" +
+		"# Column 0 - bin centers.\n" +
+		"# Column 1 - bin counts.\n",
+		con.Quantity, con.HistMin, con.HistMax, con.HistBins,
+		strings.ToLower(con.HistScale),
+	)
+	if err != nil { return err }
+
+	for j := range box.Counts {
+		_, err = fmt.Fprintf(
+			f, "%8.4g %d\n", box.Centers[j], box.Counts[j],
+		)
+		if err != nil { return err }
+	}
+	return nil
+}
+
-- 
2.43.0


From 8d9cb63d4d6c1b25d3bf99656807ef376c300f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 28/90] fix: read projected grids

---
 render/hist.go      | 9 +++++----
 render/io/output.go | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 1992873..e10aaa0 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -391,7 +391,7 @@ func (man *HistManager) getDensities(
 }
 
 func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
-	idx := [3]int{ }
+	idx, span := [3]int{ }, hd.Loc.PixelSpan
 	L := hd.Cosmo.BoxWidth
 	for k := 0; k < 3; k++ {
 		delta := float64(vec[k]) - hd.Loc.Origin[k]
@@ -400,11 +400,12 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 
 		if delta < 0 || delta >= hd.Loc.Span[k] { return -1 }
 		idx[k] = int(delta / hd.Loc.PixelWidth)
+		
+		// Projected grids are one pixel deep.
+		if int64(k) == hd.Render.ProjectionAxis { idx[k], span[k] = 0, 1 }
 	}
 	
-	
-	return idx[0] + idx[1]*int(hd.Loc.PixelSpan[0]) +
-		idx[2]*int(hd.Loc.PixelSpan[0]*hd.Loc.PixelSpan[1])
+	return idx[0] + idx[1]*int(span[0]) + idx[2]*int(span[0]*span[1])
 }
 
 func (man *HistManager) periodizeTetra(tet *geom.Tetra, L float32) {
diff --git a/render/io/output.go b/render/io/output.go
index 92d8e50..b0d5b5e 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -79,6 +79,7 @@ func ReadGrid(fname string) ([]float64, error) {
     }
 
     sp := hd.Loc.PixelSpan
+    if axis := hd.Render.ProjectionAxis; axis >= 0 && axis < 3 { sp[axis] = 1 }
     val32s := make([]float32, sp[0] * sp[1] * sp[2])
     err = binary.Read(f, end, val32s)
     if err != nil { return nil, err }
-- 
2.43.0


From c673e8ab894274c29fa1c8545b28064e3994bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 29/90] fix: iterate over snapshots until one is missing if
 there is no end

---
 render/main/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index 93b3d38..88c1b59 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -248,7 +248,9 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 
 	// If the user supplied format strings for iterated output, loop over the
 	// iteration range. Otherwise, just use the supplied snapshot.
-	for i := con.IterationStart; i <= con.IterationEnd; i++ {
+	// If the range doesn't have an end, stop at the first missing snapshot.
+	open := !con.ValidIterationEnd()
+	for i := con.IterationStart; open || i <= con.IterationEnd; i++ {
 		input, output := con.Input, con.Output
 		if con.ValidIteratedInput() {
 			input = fmt.Sprintf(con.IteratedInput, i)
@@ -256,6 +258,7 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 		}
 
 		infos, err := ioutil.ReadDir(input)
+		if open && i > con.IterationStart && os.IsNotExist(err) { break }
 		if err != nil { log.Fatal(err.Error()) }
 		files := make([]string, len(infos))
 		
-- 
2.43.0


From 2cf2e04a2c6acd50355bb829998dadfefeabcc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 30/90] fix: refuse to run on less than one thread

---
 render/main/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 88c1b59..b660e49 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -94,6 +94,10 @@ func main() {
 	
 	flag.Parse()
 
+	if render.NumCores < 1 {
+		log.Fatalf("Invalid 'Threads' value, %d.", render.NumCores)
+	}
+
 	// Figure out the mode and fail with a descriptive error is the user gave 
 	// incorrect flags.
 	modeName, err := getModeName(vars)
-- 
2.43.0


From f7cae707775f21225b001b9b9b0bbb50cfd54d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 31/90] fix: subtract every term of curls and divergences

---
 render/geom/deriv.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index aba0488..f3682df 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -338,7 +338,12 @@ func (g *GridLocation) Curl(
 	g.Deriv(vecs[0], out[1], 2, op)
 	g.Deriv(vecs[1], out[2], 0, op)
 
-	op.Op = Subtract
+	// The second terms have the opposite sign of the first ones.
+	if op.Op == Subtract {
+		op.Op = Add
+	} else {
+		op.Op = Subtract
+	}
 	g.Deriv(vecs[1], out[0], 2, op)
 	g.Deriv(vecs[2], out[1], 0, op)
 	g.Deriv(vecs[0], out[2], 1, op)
@@ -352,7 +357,7 @@ func (g *GridLocation) Divergence(
 	tmp := *op
 	op = &tmp
 	g.Deriv(vecs[0], out, 0, op)
-	op.Op = Add
+	if op.Op == None { op.Op = Add }
 	g.Deriv(vecs[1], out, 1, op)
 	g.Deriv(vecs[2], out, 2, op)
 }
-- 
2.43.0


From 93592f091a78e0f3257378378b9e324e73c1912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 32/90] fix: restart initialized Sobol sequences

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 9d6cad6..05f9b73 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -39,8 +39,8 @@ func NewSobolSequence() *SobolSequence {
 // See Press et al. 2007.
 func (seq *SobolSequence) Init() {
 	for i := range seq.ix { seq.ix[i] = 0 }
-	if seq.isInit { return }
 	seq.seqNum = 0
+	if seq.isInit { return }
 
 	seq.iv = initIv
 	seq.ip = initIp
-- 
2.43.0


From 765c0758bfe5227c03ea15b700bd06053d1ee7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 33/90] fix: use the recurrence of Press et al. for Sobol
 sequences

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 05f9b73..20a9b66 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -58,7 +58,7 @@ func (seq *SobolSequence) Init() {
 			i ^= (i >> deg)
 
 			for l := deg - 1; l >= 1; l-- {
-				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - 1) + k] }
+				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - l) + k] }
 				ipp >>= 1
 			}
 
-- 
2.43.0


From 6ccaed6499401ad09c8472e40b7bbd179310130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 34/90] fix: look z up in the z values of TriLinear

---
 math/interpolate/linear_interpolators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/linear_interpolators.go b/math/interpolate/linear_interpolators.go
index 5b24db6..f059edd 100644
--- a/math/interpolate/linear_interpolators.go
+++ b/math/interpolate/linear_interpolators.go
@@ -282,7 +282,7 @@ func NewUniformTriLinear(
 func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	ix := tri.xs.search(x)
 	iy := tri.ys.search(y)
-	iz := tri.ys.search(z)
+	iz := tri.zs.search(z)
 
 	dix, diy, diz := 1, tri.nx, tri.nx*tri.ny
 	i := ix + iy*tri.nx + iz*tri.ny*tri.nx
@@ -298,7 +298,7 @@ func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	
 	x1, x2 := tri.xs.val(ix), tri.xs.val(ix + 1)
 	y1, y2 := tri.ys.val(iy), tri.ys.val(iy + 1)
-	z1, z2 := tri.ys.val(iz), tri.ys.val(iz + 1)
+	z1, z2 := tri.zs.val(iz), tri.zs.val(iz + 1)
 	
 	xd := (x - x1) / (x2 - x1)
 	yd := (y - y1) / (y2 - y1)
-- 
2.43.0


From 8f7aff73d35ff57d8397a5d2afde5268ddafbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 35/90] fix: allow splines through two points

---
 math/interpolate/spline.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 5f84666..cb4717f 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -215,7 +215,8 @@ func (sp *Spline) calcY2s() {
 			((ys[j] - ys[j-1]) / (xs[j] - xs[j-1]))
 	}
 
-	TriDiagAt(as, bs, cs, rs, sp.y2s[1: n-1])
+	// Two points only have boundaries.
+	if n > 2 { TriDiagAt(as, bs, cs, rs, sp.y2s[1: n-1]) }
 }
 
 func (sp *Spline) calcCoeffs() {
-- 
2.43.0


From 2630f83ce45cd371f0e6e7c7c617dd84fea37004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 36/90] fix: keep cubic interpolators usable after panics

---
 math/interpolate/cubic_interpolators.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/math/interpolate/cubic_interpolators.go b/math/interpolate/cubic_interpolators.go
index 6a81d48..9e8c824 100644
--- a/math/interpolate/cubic_interpolators.go
+++ b/math/interpolate/cubic_interpolators.go
@@ -2,6 +2,7 @@ package interpolate
 
 import (
 	"fmt"
+	"math"
 )
 
 ////////////////////////////
@@ -87,12 +88,13 @@ func (bi *BiCubic) initSplines() {
 
 func (bi *BiCubic) Eval(x, y float64) float64 {
 	if y != bi.lastY {
-		bi.lastY = y
 		for i := range bi.xSplineVals {
 			bi.xSplineVals[i] = bi.ySplines[i].Eval(y)
 		}
 
 		bi.xSpline.Init(bi.xs, bi.xSplineVals)
+		// Eval panics if y is out of range, so only remember valid values.
+		bi.lastY = y
 	}
 
 	return bi.xSpline.Eval(x)
@@ -239,27 +241,28 @@ func (tri *TriCubic) initSplines() {
 func (tri *TriCubic) Eval(x, y, z float64) float64 {
 	if y != tri.lastY || z != tri.lastZ {
 		if z != tri.lastZ {
-			tri.lastZ = z
-			
 			tri.ySplineVals = make([][]float64, len(tri.xs))
 			for xi := range tri.xs {
 				tri.ySplineVals[xi] = make([]float64, len(tri.ys))
 				for yi := range tri.ys {
 					tri.ySplineVals[xi][yi] =
-						tri.zSplines[yi*tri.nx + xi].Eval(tri.lastZ)
+						tri.zSplines[yi*tri.nx + xi].Eval(z)
 				}
 				tri.ySplines[xi].Init(tri.ys, tri.ySplineVals[xi])
 			}			
+			// Eval panics if z or y are out of range, so only remember valid
+			// values. xSpline needs to be updated for the new z in any case.
+			tri.lastZ = z
+			tri.lastY = math.NaN()
 		}
 
-		tri.lastY = y
-		
 		tri.xSplineVals = make([]float64, len(tri.xs))
 		for xi := range tri.xSplineVals {
-			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(tri.lastY)
+			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(y)
 		}
 		
 		tri.xSpline.Init(tri.xs, tri.xSplineVals)
+		tri.lastY = y
 	}
 
 	return tri.xSpline.Eval(x)
-- 
2.43.0


From 8a25ae06543181932dc966b1603c10bf2655d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 37/90] fix: integrate splines between points inside of
 intervals

---
 math/interpolate/spline.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index cb4717f..4beedbe 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -144,20 +144,27 @@ func (sp *Spline) Integrate(lo, hi float64) float64 {
 
 	iLo, iHi := sp.bsearch(lo), sp.bsearch(hi)
 	if iLo == iHi {
-		return integTerm(&sp.coeffs[iLo], lo, hi)
+		return sp.integTerm(iLo, lo, hi)
 	}
-	sum := integTerm(&sp.coeffs[iLo], lo, sp.xs[iLo+1]) +
-		integTerm(&sp.coeffs[iHi], sp.xs[iHi], hi)
+	sum := sp.integTerm(iLo, lo, sp.xs[iLo+1]) +
+		sp.integTerm(iHi, sp.xs[iHi], hi)
 
 	for i := iLo + 1; i < iHi; i++ {
-		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i + 1])
+		sum += sp.integTerm(i, sp.xs[i], sp.xs[i + 1])
 	}
 	return sum
 }
 
-func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
+// integTerm integrates the i-th polynomial from lo to hi. The polynomials are
+// functions of the distance to the left point of their interval.
+func (sp *Spline) integTerm(i int, lo, hi float64) float64 {
+	return sp.integTo(i, hi) - sp.integTo(i, lo)
+}
+
+func (sp *Spline) integTo(i int, x float64) float64 {
+	coeff := &sp.coeffs[i]
 	a, b, c, d := coeff.a, coeff.b, coeff.c, coeff.d
-	dx := hi - lo
+	dx := x - sp.xs[i]
 	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
 }
 
-- 
2.43.0


From 6217aa2624a39ebe3574266d46cfb88fd92152c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 38/90] fix: interpolate tables which decrease

---
 math/interpolate/search.go |  6 ++++--
 math/interpolate/spline.go | 22 +++++++++++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/math/interpolate/search.go b/math/interpolate/search.go
index a417fe9..eedd76b 100644
--- a/math/interpolate/search.go
+++ b/math/interpolate/search.go
@@ -33,9 +33,11 @@ func (s *searcher) unifInit(x0, dx float64, n int) {
 
 
 func (s *searcher) search(x float64) int {
-	if x > s.lim || x < s.x0 {
+	lo, hi := s.x0, s.lim
+	if !s.incr { lo, hi = hi, lo }
+	if x > hi || x < lo {
 		panic(fmt.Sprintf(
-			"Value %g out of range bounds [%g, %g]", x, s.x0, s.lim,
+			"Value %g out of range bounds [%g, %g]", x, lo, hi,
 		))
 	}
 
diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 4beedbe..894a820 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -109,7 +109,7 @@ func (sp *Spline) EvalAll(xs []float64, out ...[]float64) []float64 {
 //
 // x must be within the range of x values given to NewSpline().
 func (sp *Spline) Deriv(x float64, order int) float64 {
-	if x < sp.xs[0] == sp.incr || x > sp.xs[len(sp.xs)-1] == sp.incr {
+	if sp.outOfBounds(x) {
 		panic(fmt.Sprintf("Point %g given to Spline.Differentiate() " + 
 			"out of bounds.", x))
 	}
@@ -134,17 +134,21 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
 	if lo > hi { return -sp.Integrate(hi, lo) }
-	if lo < sp.xs[0] == sp.incr || lo > sp.xs[len(sp.xs)-1] == sp.incr {
+	if sp.outOfBounds(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-	} else if hi < sp.xs[0] == sp.incr || hi > sp.xs[len(sp.xs)-1] == sp.incr {
+	} else if sp.outOfBounds(hi) {
 		panic(fmt.Sprintf("High bound %g in Spline.Integrate() " + 
 			"out of bounds.", hi))
 	}
 
+	// Intervals are always visited in the order of the table.
+	sign := 1.0
+	if !sp.incr { lo, hi, sign = hi, lo, -1 }
+
 	iLo, iHi := sp.bsearch(lo), sp.bsearch(hi)
 	if iLo == iHi {
-		return sp.integTerm(iLo, lo, hi)
+		return sign * sp.integTerm(iLo, lo, hi)
 	}
 	sum := sp.integTerm(iLo, lo, sp.xs[iLo+1]) +
 		sp.integTerm(iHi, sp.xs[iHi], hi)
@@ -152,7 +156,7 @@ func (sp *Spline) Integrate(lo, hi float64) float64 {
 	for i := iLo + 1; i < iHi; i++ {
 		sum += sp.integTerm(i, sp.xs[i], sp.xs[i + 1])
 	}
-	return sum
+	return sign * sum
 }
 
 // integTerm integrates the i-th polynomial from lo to hi. The polynomials are
@@ -168,6 +172,14 @@ func (sp *Spline) integTo(i int, x float64) float64 {
 	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
 }
 
+// outOfBounds returns true if x is outside of the table, which may be sorted
+// in either direction.
+func (sp *Spline) outOfBounds(x float64) bool {
+	lo, hi := sp.xs[0], sp.xs[len(sp.xs)-1]
+	if !sp.incr { lo, hi = hi, lo }
+	return x < lo || x > hi
+}
+
 // bsearch returns the the index of the largest element in xs which is smaller
 // than x.
 func (sp *Spline) bsearch(x float64) int {
-- 
2.43.0


From 7e59b0f812e99d4a76e0dd05d84c1d32643ee205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 39/90] fix: start Sobol sequences at their first point

---
 math/rand/sobol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 20a9b66..e9525f5 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -87,12 +87,11 @@ func (seq *SobolSequence) NextAt(target []float64) {
 		)
 	}
 
-	seq.seqNum++
-
 	zeroIdx := uint32(0)
 	for zeroIdx = 0; zeroIdx < MaxBit; zeroIdx++ {
 		if (seq.seqNum & (1<<zeroIdx)) == 0 { break }
 	}
+	seq.seqNum++
 
 	im := zeroIdx * MaxDim
 	for k := uint32(0); k < dim; k++ {
-- 
2.43.0


From 4edbed6be38c01aba8711025dee6d65a0eb237c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 40/90] fix: render segments nearly as wide as the box without
 folding them over

---
 render/render.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/render/render.go b/render/render.go
index 1c9bc12..ae16d87 100644
--- a/render/render.go
+++ b/render/render.go
@@ -176,9 +176,23 @@ func (r *renderer) requiresFile(file string) bool {
 
 func (r *renderer) scaleXs(man *Manager) {
 	copy(man.scaledXs, man.xs)
+	unwrap(man.scaledXs, &man.hd)
 	r.over.ScaleVecs(man.scaledXs, &man.xCb)
 }
 
+// unwrap moves the points of a segment which lie on the far side of the box's
+// edge past that edge, so that wide segments aren't folded over when their
+// first and last pixels are the same one. Points which rounding has moved to
+// just outside of their segment are left alone.
+func unwrap(xs []geom.Vec, hd *io.SheetHeader) {
+	width := float32(hd.TotalWidth)
+	for i := range xs {
+		for j := 0; j < 3; j++ {
+			if xs[i][j] < hd.Origin[j] - 1e-5 * width { xs[i][j] += width }
+		}
+	}
+}
+
 func (r *renderer) ptVal(man *Manager) float64 {
 	if man.q.RequiresVelocity() {
 		return 1
-- 
2.43.0


From 8048c82a418ccb7a882521f9c2545874a1b9879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 41/90] fix: keep samples at the edge of a grid inside of it

---
 render/hist.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/hist.go b/render/hist.go
index e10aaa0..af861fe 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -400,6 +400,8 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 
 		if delta < 0 || delta >= hd.Loc.Span[k] { return -1 }
 		idx[k] = int(delta / hd.Loc.PixelWidth)
+		// Rounding can put points at the edge of the grid past its last pixel.
+		if int64(idx[k]) >= span[k] { idx[k] = int(span[k]) - 1 }
 		
 		// Projected grids are one pixel deep.
 		if int64(k) == hd.Render.ProjectionAxis { idx[k], span[k] = 0, 1 }
-- 
2.43.0


From 7c7ab8b90528e34aacaec163cadb5743df6bdeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 42/90] fix: keep samples of flat tetrahedra inside of their
 segments

---
 render/geom/grid.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index fcc0864..ad0cb9a 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -174,12 +174,14 @@ func (vcb *CellBounds) ScaleVecsSegment(
 
 // segmentCoord periodically wraps a coordinate measured from the origin of a
 // segment with the given width into that segment. Rounding can move points on
-// the edges of a segment to just outside of it. These are moved back inside.
+// the edges of a segment to just outside of it. These are moved back inside,
+// and kept as far from the upper edge as rounding can move their averages.
 func segmentCoord(x, width, cells float32) float32 {
+	limit := width * (1 - 1e-6)
 	if x < 0 { x += cells }
-	if x < width { return x }
+	if x < limit { return x }
 	if cells - x < x - width { return 0 }
-	return width * (1 - 1e-6)
+	return limit
 }
 
 func (vcb *CellBounds) ScaleVecsDomain(
-- 
2.43.0


From 45acda44f1e933577b42c401b9b656a3850c913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 43/90] fix: points exactly on the lower edge of a pixel belong
 to that pixel

---
 render/box.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/box.go b/render/box.go
index 15d5487..2c63e1f 100644
--- a/render/box.go
+++ b/render/box.go
@@ -687,11 +687,11 @@ func (w *domainOverlap3D) Interpolate(
 }
 
 func intFloor(x float32) int {
-	if x > 0 {
-		return int(x)
-	} else {
-		return int(x - 1)
+	n := int(x)
+	if x < float32(n) {
+		n--
 	}
+	return n
 }
 
 func cbSubtr(cb1, cb2 *geom.CellBounds) (i, j, k int) {
-- 
2.43.0


From dc64dfc3ff5a5afed4b3c843f4db5197d1939624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 44/90] fix: boxes too narrow to differentiate are refused
 before any output is overwritten

---
 render/main/main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index b660e49..1a453d5 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -577,6 +577,15 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 		boxes[i] = render.NewBox(
 			hd.TotalWidth, pts, cells, q, &configBoxes[i],
 		)
+		// Refuse what can't be differentiated before earlier output is lost.
+		for _, w := range boxes[i].CellSpan() {
+			if !q.CanProject() && (w < 4 || (w < 5 && w != cells)) {
+				log.Fatalf(
+					"Box '%s' is only %d pixels wide, which is too narrow " +
+						"for %s.", configBoxes[i].Name, w, q,
+				)
+			}
+		}
 		log.Println(
 			"Rendering to box:", boxes[i].CellSpan(),
 			"pixels,", pts, "particles per tetrahedron",
-- 
2.43.0


From f96781dd8a543a4d6d0c2aeba9322a3856be28ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 45/90] fix: balls with a negative radius are refused

---
 render/io/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index 5cf975c..d096aac 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -350,7 +350,7 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
-	if ball.Radius == 0 {
+	if ball.Radius <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
 		)
-- 
2.43.0


From 413923ba6f9b006199d28635fe087ca02f2b814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 46/90] fix: TetraHist refuses invalid 'HistBins' and
 'Particles'

---
 render/io/config.go | 4 ++++
 render/main/main.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index d096aac..379d8c2 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -584,6 +584,10 @@ func (con *TetraHistConfig) ValidHistBins() bool {
 	return con.HistBins > 0
 }
 
+func (con *TetraHistConfig) ValidParticles() bool {
+	return con.Particles > 0
+}
+
 func (con *TetraHistConfig) ValidHistScale() bool {
 	return con.HistScale == "Linear" || con.HistScale == "Log"
 }
diff --git a/render/main/main.go b/render/main/main.go
index 1a453d5..097cbce 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -158,6 +158,10 @@ func main() {
 				con.SubsampleLength)
 		} else if !con.ValidHistScale() {
 			log.Fatalf("Invalid 'HistScale' value, %s.", con.HistScale)
+		} else if !con.ValidHistBins() {
+			log.Fatalf("Invalid 'HistBins' value, %d.", con.HistBins)
+		} else if !con.ValidParticles() {
+			log.Fatalf("Invalid 'Particles' value, %d.", con.Particles)
 		} else if !con.ValidHistMin() || !con.ValidHistMax() {
 			log.Fatalf("Invalid ('HistMin', 'HistMax'), (%g, %g).",
 				con.HistMin, con.HistMax)
-- 
2.43.0


From 637f8ece716d934724fd23bcda588dc017c6ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 47/90] fix: TetraHist refuses unknown quantities even if no
 tetrahedron meets its boxes

---
 render/io/config.go | 4 ++--
 render/main/main.go | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 379d8c2..921a399 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -561,8 +561,8 @@ func (con *TetraHistConfig) ValidGridFile() bool {
 }
 
 func (con *TetraHistConfig) ValidQuantity() bool {
-	switch con.Quantity {
-	case "Density":
+	switch strings.ToLower(con.Quantity) {
+	case "density":
 		return true
 	}
 	return false
diff --git a/render/main/main.go b/render/main/main.go
index 097cbce..65620f2 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -156,6 +156,8 @@ func main() {
 		} else if !con.ValidSubsampleLength() {
 			log.Fatalf("Invalid 'SubsampleLength' value, %d.",
 				con.SubsampleLength)
+		} else if !con.ValidQuantity() {
+			log.Fatalf("Invalid quantity, '%s'", con.Quantity)
 		} else if !con.ValidHistScale() {
 			log.Fatalf("Invalid 'HistScale' value, %s.", con.HistScale)
 		} else if !con.ValidHistBins() {
-- 
2.43.0


From f4c920318c7cafdee8e2ab590dd708e5da82fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 48/90] fix: files of different snapshots are not converted as
 one

The headers of all but the first file were ignored apart from their particle
counts, so that a directory holding files of several snapshots was converted
to a mixture of them.
---
 render/main/main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 65620f2..7ac0d05 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -320,6 +320,15 @@ func createGrids(
 				"that the snapshot has %d.", count, hs[0].TotalCount,
 		)
 	}
+	for i, h := range hs {
+		if h.TotalCount != hs[0].TotalCount || h.Mass != hs[0].Mass ||
+			h.TotalWidth != hs[0].TotalWidth || h.Cosmo != hs[0].Cosmo {
+			log.Fatalf(
+				"%s and %s are not files of the same snapshot.",
+				catalogs[0], catalogs[i],
+			)
+		}
+	}
 
 	// Allocate position/velocity grids and sinle-file buffers.
 	xs = make([]geom.Vec, hs[0].TotalCount)
-- 
2.43.0


From 3091e0f3f4ae50b0267be9b62145a45db987004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 49/90] fix: a snapshot which holds a particle twice is refused

If one of its files is a copy of another one of the same size, the particles
of the missing file were silently placed at the origin of the box.
---
 render/main/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 7ac0d05..7785262 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -346,6 +346,7 @@ func createGrids(
 	vBuf := make([]geom.Vec, maxLen)
 
 	buf := io.NewParticleBuffer(xs, vs, catalogBufLen)
+	seen := make([]bool, hs[0].TotalCount)
 
 	for i, cat := range catalogs {
 		// Read in a single snapsot file.
@@ -363,6 +364,15 @@ func createGrids(
 			cat, gadgetEndianness, xBuf, vBuf, idBuf, idSize, con.InputFormat,
 		)
 
+		for _, id := range idBuf {
+			if id < 1 || id > hs[0].TotalCount {
+				log.Fatalf("%s contains a particle with the ID %d.", cat, id)
+			} else if seen[id - 1] {
+				log.Fatalf("Particle %d occurs twice in the snapshot.", id)
+			}
+			seen[id - 1] = true
+		}
+
 		for j := range xBuf {
 			for k := 0; k < 3; k++ {
 				xBuf[j][k] *= float32(con.XUnits)
-- 
2.43.0


From e7df815f638f724d06d38be71c148bc63f8a04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 50/90] fix: the upper half of a snapshot's particle count is
 not shifted away

A 32 bit number shifted by 32 bits is zero, so snapshots of more than 2^32
particles were taken for smaller ones.
---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index b7558ff..85b96de 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -104,7 +104,7 @@ func (gh *gadgetHeader) Standardize() *CatalogHeader {
 	h := &CatalogHeader{}
 
 	h.Count = int64(gh.NPart[1] + gh.NPart[0]<<32)
-	h.TotalCount = int64(gh.NPartTotal[1] + gh.NPartTotal[0]<<32)
+	h.TotalCount = int64(gh.NPartTotal[1]) + int64(gh.NPartTotal[0])<<32
 	h.Mass = float64(gh.Mass[1])
 	h.TotalWidth = float64(gh.BoxSize)
 	h.Width = -1.0
-- 
2.43.0


From a3045c68a9f3f346b73cb8ffaa1889ff3961149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 51/90] fix: ConvertSnapshot refuses units which aren't usable
 numbers

---
 render/io/config.go | 15 +++++++++++++++
 render/main/main.go |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index 921a399..0f2e0b5 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"gopkg.in/gcfg.v1"
@@ -250,6 +251,11 @@ type ConvertSnapshotConfig struct {
 	XUnits, VUnits, MUnits float64
 }
 
+// isFinite returns true if x is neither NaN nor infinite.
+func isFinite(x float64) bool {
+	return !math.IsNaN(x) && !math.IsInf(x, 0)
+}
+
 func DefaultConvertSnapshotWrapper() *ConvertSnapshotWrapper {
 	con := ConvertSnapshotConfig{}
 	con.IterationStart = 0
@@ -277,6 +283,15 @@ func (con *ConvertSnapshotConfig) ValidIteratedInput() bool {
 func (con *ConvertSnapshotConfig) ValidIteratedOutput() bool {
 	return con.IteratedOutput != ""
 }
+func (con *ConvertSnapshotConfig) ValidXUnits() bool {
+	return con.XUnits > 0 && isFinite(con.XUnits)
+}
+func (con *ConvertSnapshotConfig) ValidVUnits() bool {
+	return isFinite(con.VUnits)
+}
+func (con *ConvertSnapshotConfig) ValidMUnits() bool {
+	return con.MUnits > 0 && isFinite(con.MUnits)
+}
 func (con *ConvertSnapshotConfig) ValidIterationStart() bool {
 	return con.IterationStart >= 0
 }
diff --git a/render/main/main.go b/render/main/main.go
index 7785262..5c90374 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -191,6 +191,10 @@ func main() {
 			log.Fatal("Only one of IteratedInput and IteratedOutput is set.")
 		} else if !con.ValidGadget2IDSize() {
 			log.Fatal("Gadget2IDSize must be set to 32 or 64.")
+		} else if !con.ValidXUnits() || !con.ValidVUnits() ||
+			!con.ValidMUnits() {
+			log.Fatalf("Invalid ('XUnits', 'VUnits', 'MUnits'), (%g, %g, %g).",
+				con.XUnits, con.VUnits, con.MUnits)
 		}
 
 		switch con.InputFormat {
-- 
2.43.0


From 28425c4c8f9b76b17167868e05acf339cbd5e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 52/90] fix: ConvertSnapshot refuses an empty range of
 iterations

---
 render/main/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 5c90374..b863a61 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -264,6 +264,10 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 	// iteration range. Otherwise, just use the supplied snapshot.
 	// If the range doesn't have an end, stop at the first missing snapshot.
 	open := !con.ValidIterationEnd()
+	if !open && con.IterationEnd < con.IterationStart {
+		log.Fatalf("'IterationEnd', %d, is smaller than 'IterationStart', %d.",
+			con.IterationEnd, con.IterationStart)
+	}
 	for i := con.IterationStart; open || i <= con.IterationEnd; i++ {
 		input, output := con.Input, con.Output
 		if con.ValidIteratedInput() {
-- 
2.43.0


From bffc56305f7ad8cf4efd76eac0ae929f61435e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 53/90] fix: TetraHist refuses a range which isn't finite

---
 render/io/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 0f2e0b5..61564bc 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -586,13 +586,13 @@ func (con *TetraHistConfig) ValidQuantity() bool {
 func (con *TetraHistConfig) ValidHistMin() bool {
 	return (con.HistScale == "Linear" ||
 		(con.HistScale == "Log" && con.HistMin > 0)) && 
-		con.HistMin < con.HistMax
+		isFinite(con.HistMin) && con.HistMin < con.HistMax
 }
 
 func (con *TetraHistConfig) ValidHistMax() bool {
 	return (con.HistScale == "Linear" ||
 		(con.HistScale == "Log" && con.HistMax > 0)) &&
-		con.HistMin < con.HistMax
+		isFinite(con.HistMax) && con.HistMin < con.HistMax
 }
 
 func (con *TetraHistConfig) ValidHistBins() bool {
-- 
2.43.0


From 5ffe2444521d9c1bcf451826ae0f9e54f2d5eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 54/90] fix: regions which aren't finite are refused

---
 render/io/config.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index 61564bc..99136f1 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -365,6 +365,13 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
+	if !isFinite(ball.X) || !isFinite(ball.Y) || !isFinite(ball.Z) ||
+		!isFinite(ball.Radius) || !isFinite(ball.RadiusMultiplier) {
+		return fmt.Errorf(
+			"The numbers describing Ball '%s' must all be finite.", name,
+		)
+	}
+
 	if ball.Radius <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
@@ -457,6 +464,14 @@ type BoxConfig struct {
 }
 
 func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
+	if !isFinite(box.X) || !isFinite(box.Y) || !isFinite(box.Z) ||
+		!isFinite(box.XWidth) || !isFinite(box.YWidth) ||
+		!isFinite(box.ZWidth) {
+		return fmt.Errorf(
+			"The numbers describing Box '%s' must all be finite.", name,
+		)
+	}
+
 	if box.XWidth <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive XWidth for Box '%s'", name,
-- 
2.43.0


From ee6916e44af38cc363c4abf46a2b1f225fb04df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 55/90] fix: bounds which share a name don't overwrite each
 other's output

---
 render/main/main.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index b863a61..1301a5b 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -595,6 +595,7 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 		if err != nil { log.Fatal(err.Error()) }
 		configBoxes = append(configBoxes, boxes...)
 	}
+	checkNames(configBoxes)
 
 	// Figure out which quantity we're rendering.
 	q, ok := density.QuantityFromString(con.Quantity)
@@ -666,6 +667,18 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 	}
 }
 
+// checkNames fails if two boxes have the same name, since the output of one
+// would overwrite the output of the other.
+func checkNames(boxes []io.BoxConfig) {
+	names := make(map[string]bool)
+	for i := range boxes {
+		if names[boxes[i].Name] {
+			log.Fatalf("Two bounds are called '%s'.", boxes[i].Name)
+		}
+		names[boxes[i].Name] = true
+	}
+}
+
 // toFloat32 converts a float64 array to a float32 array.
 func toFloat32(xs []float64) []float32 {
 	ys := make([]float32, len(xs))
@@ -848,6 +861,7 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 		if err != nil { log.Fatal(err.Error()) }
 		configBoxes = append(configBoxes, boxes...)
 	}
+	checkNames(configBoxes)
 
 	// Figure out cell sizes, pixel sizes, and particle counts.
 	boxes := make([]render.HistBox, len(configBoxes))
-- 
2.43.0


From d482318316c014dd226958425ed450977bbe5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 56/90] fix: files which aren't grids are not read as grids

---
 render/io/output.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/render/io/output.go b/render/io/output.go
index b0d5b5e..1a2f65d 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -63,9 +63,20 @@ func ReadGridHeader(fname string) (*GridHeader, error) {
     hd := &GridHeader{}
     err = binary.Read(f, end, hd)
     if err != nil { return nil, err }
+    if err = hd.check(fname); err != nil { return nil, err }
     return hd, nil
 }
 
+// check returns an error if hd can't be the header of a grid file which was
+// written by WriteBuffer.
+func (hd *GridHeader) check(fname string) error {
+    if hd.EndiannessVersion != EndiannessVersionFlag(end) ||
+        hd.Type.HeaderSize != int64(unsafe.Sizeof(*hd)) {
+        return fmt.Errorf("%s is not a version %d grid file.", fname, Version)
+    }
+    return nil
+}
+
 func ReadGrid(fname string) ([]float64, error) {
     f, err := os.Open(fname)
     defer f.Close()
@@ -73,6 +84,7 @@ func ReadGrid(fname string) ([]float64, error) {
     hd := &GridHeader{}
     err = binary.Read(f, end, hd)
     if err != nil { return nil, err }
+    if err = hd.check(fname); err != nil { return nil, err }
 
     if hd.Type.IsVectorGrid == 1 {
         return nil, fmt.Errorf("io.ReadGrid() can only read scalar grids.")
-- 
2.43.0


From 48b6d31e85e7891ff49436fb6a7de929f7d3c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 57/90] fix: histograms are not taken of grids from other boxes
 or of other quantities

---
 render/hist.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/render/hist.go b/render/hist.go
index af861fe..5035367 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -8,6 +8,7 @@ import (
 	"runtime"
 	"strings"
 
+	"github.com/phil-mansfield/gotetra/render/density"
 	"github.com/phil-mansfield/gotetra/render/geom"
 	"github.com/phil-mansfield/gotetra/render/io"
 )
@@ -94,6 +95,16 @@ func NewHistManager(
 	if err != nil { return nil, err }
 	man.grid, err = io.ReadGrid(gridFile)
 	if err != nil { return nil, err }
+	if man.gridHd.Type.GridType != int64(density.Density) {
+		return nil, fmt.Errorf("%s is not a density grid.", gridFile)
+	}
+	gridL := man.gridHd.Cosmo.BoxWidth
+	if !(math.Abs(gridL - man.hd.TotalWidth) <= 1e-6 * man.hd.TotalWidth) {
+		return nil, fmt.Errorf(
+			"%s comes from a box with width %g, not %g.",
+			gridFile, gridL, man.hd.TotalWidth,
+		)
+	}
 
 	man.boxes = boxes
 
-- 
2.43.0


From eb4264739d17f120cc8991d1e0e6cada022166a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 58/90] fix: segments of other sheets and copies of segments
 aren't rendered

---
 render/hist.go   |  6 ++++++
 render/render.go | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/render/hist.go b/render/hist.go
index 5035367..9cc19b2 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -80,6 +80,12 @@ func NewHistManager(
 		quantity: quantity,
 		skip: 1,
 	}
+	segs := newSegmentSet()
+	for _, file := range files {
+		err := io.ReadSheetHeaderAt(file, &man.hd)
+		if err != nil { return nil, err }
+		if err = segs.add(file, &man.hd); err != nil { return nil, err }
+	}
 	err := io.ReadSheetHeaderAt(files[0], &man.hd)
 	if err != nil { return nil, err }
 	man.xs = make([]geom.Vec, man.hd.GridCount)
diff --git a/render/render.go b/render/render.go
index ae16d87..b794668 100644
--- a/render/render.go
+++ b/render/render.go
@@ -1,6 +1,7 @@
 package render
 
 import (
+	"fmt"
 	"log"
 	"path"
 	"runtime"
@@ -91,9 +92,11 @@ func NewManager(
 	man.files = make([]string, 0)
 	maxBufSize := 0
 
+	segs := newSegmentSet()
 	for _, file := range files {
 		err := io.ReadSheetHeaderAt(file, &man.hd)
 		if err != nil { return nil, err }
+		if err = segs.add(file, &man.hd); err != nil { return nil, err }
 
 		intersect := false
 		for i := range boxes {
@@ -150,6 +153,36 @@ func NewManager(
 	return man, nil
 }
 
+// segmentSet checks that files are different segments of the same sheet.
+type segmentSet struct {
+	file string
+	hd io.SheetHeader
+	files map[int64]string
+}
+
+func newSegmentSet() *segmentSet {
+	return &segmentSet{ files: make(map[int64]string) }
+}
+
+// add adds a file with the given header to the set. It returns an error if the
+// file doesn't belong there.
+func (set *segmentSet) add(file string, hd *io.SheetHeader) error {
+	if set.file == "" { set.file, set.hd = file, *hd }
+
+	if hd.Cosmo != set.hd.Cosmo || hd.Mass != set.hd.Mass ||
+		hd.TotalWidth != set.hd.TotalWidth || hd.Cells != set.hd.Cells ||
+		hd.CountWidth != set.hd.CountWidth {
+		return fmt.Errorf(
+			"%s and %s are segments of different sheets.", set.file, file,
+		)
+	}
+	if other, ok := set.files[hd.Idx]; ok {
+		return fmt.Errorf("%s and %s are the same segment.", other, file)
+	}
+	set.files[hd.Idx] = file
+	return nil
+}
+
 // unitBufs generates nUnit collections of vectors distributed uniformly over
 // a unit cube. Each cube has pts points inside it.
 func unitBufs(nUnit, pts int) [][]geom.Vec {
-- 
2.43.0


From b1a788cca71e5f8255354d905268f6dd1fb70995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 59/90] fix: snapshots with positions far outside of the box or
 NaN aren't converted

---
 render/io/io.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/render/io/io.go b/render/io/io.go
index 85b96de..a8d2653 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -243,6 +243,15 @@ func ReadGadgetParticlesAt(
 	rootA := float32(math.Sqrt(float64(gh.Time)))
 	for i := range xs {
 		for j := 0; j < 3; j++ {
+			x, v := float64(xs[i][j]), float64(vs[i][j])
+			// Only positions within one box width of the box can be wrapped.
+			if !(x >= -gh.BoxSize && x < 2 * gh.BoxSize) ||
+				math.IsNaN(v) || math.IsInf(v, 0) {
+				panic(fmt.Sprintf(
+					"%s contains a particle with position %g and velocity %g " +
+						"in dimension %d.", path, x, v, j,
+				))
+			}
 			xs[i][j] = float32(gh.WrapDistance(float64(xs[i][j])))
 			vs[i][j] = vs[i][j] * rootA
 		}
-- 
2.43.0


From e803a8d007ceca19ddeee0c5dc7df3935cb4380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 60/90] fix: gotetra.py opens grid files in binary mode

Under Python 3 the header was decoded as text, so that reading any grid
file failed.
---
 python/gotetra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gotetra.py b/python/gotetra.py
index 1e5ebc3..6771b76 100644
--- a/python/gotetra.py
+++ b/python/gotetra.py
@@ -66,7 +66,7 @@ def read_header(filename):
     """ read_header returns the header information at the top of a gotetra
     output file as a Header object.
     """
-    with open(filename, "r") as fp:
+    with open(filename, "rb") as fp:
         flag_s = fp.read(8)
         ver = _read_version(flag_s)
         sizes = Sizes(ver)
-- 
2.43.0


From 51e5f3c533a216c39fc88640b05a1d68b4b04bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 61/90] fix: gtet.py reads the cosmology of segment files in
 the order it is stored

The header holds z, OmegaM, OmegaL and H100; omega_m was given OmegaL's
value.
---
 python/gtet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/gtet.py b/python/gtet.py
index 46c59e0..40437e7 100644
--- a/python/gtet.py
+++ b/python/gtet.py
@@ -25,6 +25,7 @@ class File(object):
         Header fields:
                   z - Redshift.
             omega_m - (rho_m/rho_c)(z=0).
+            omega_l - (rho_l/rho_c)(z=0).
                h100 - H0 / 100 (km/s/Mpx).
               count - Number of paritlces in the box.
         count_width - count^(1/3).
@@ -50,7 +51,8 @@ class File(object):
         position_bounds = struct.unpack("ffffff", fp.read(6*4))
         velocity_bounds = struct.unpack("ffffff", fp.read(6*4))
         
-        self.z, self.scale, self.omega_m, self.h100 = cosmo_info
+        self.z, self.omega_m, self.omega_l, self.h100 = cosmo_info
+        self.scale = 1 / (1 + self.z)
         (self.count, self.count_width,
          self.segment_width, self.grid_width, self.grid_count,
          self.file_idx, self.file_cells) = index_info
-- 
2.43.0


From 82268f46171d06f0d53eeb20fa8807ce4cf9fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 62/90] fix: reading a binary halo catalogue closes it

---
 render/halo/io.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/io.go b/render/halo/io.go
index 3765abe..9b671a3 100644
--- a/render/halo/io.go
+++ b/render/halo/io.go
@@ -269,6 +269,7 @@ func asciiColGetter(file string, colIdxs []int) ([][]float64, error) {
 func binaryColGetter(file string, colIdxs []int) ([][]float64, error) {
 	f, err := os.Open(file)
 	if err != nil { return nil, err }
+	defer f.Close()
 
 	n := int64(0)
 	err = binary.Read(f, binary.LittleEndian, &n)
-- 
2.43.0


From 85e649d01d751d8b15079a11f363b8d00c3d361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 63/90] fix: incomplete binary halo catalogues are refused

---
 render/halo/io.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/render/halo/io.go b/render/halo/io.go
index 9b671a3..5aeeb60 100644
--- a/render/halo/io.go
+++ b/render/halo/io.go
@@ -2,6 +2,7 @@ package halo
 
 import (
 	"encoding/binary"
+	"fmt"
 	"os"
 	"sort"
 
@@ -275,6 +276,15 @@ func binaryColGetter(file string, colIdxs []int) ([][]float64, error) {
 	err = binary.Read(f, binary.LittleEndian, &n)
 	if err != nil { return nil, err }
 
+	info, err := f.Stat()
+	if err != nil { return nil, err }
+	rowSize := int64(valNum) * 8
+	if n < 0 || n > info.Size() / rowSize || info.Size() != 8 + n * rowSize {
+		return nil, fmt.Errorf(
+			"%s is not a complete catalogue of %d halos.", file, n,
+		)
+	}
+
 	jump := n * 8
 	cols := make([][]float64, len(colIdxs))
 	for i := range cols { cols[i] = make([]float64, n) }
-- 
2.43.0


From b515e633c70d579cc0ed0555aa207f92201e55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 64/90] fix: halo catalogues which fail to close are reported

---
 render/halo/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/halo/io.go b/render/halo/io.go
index 5aeeb60..a3ee05f 100644
--- a/render/halo/io.go
+++ b/render/halo/io.go
@@ -148,7 +148,7 @@ func RockstarConvert(inFile, outFile string) error {
 		if err != nil { return err }
 	}
 
-	return nil
+	return f.Close()
 }
 
 type idxSet struct {
@@ -205,7 +205,7 @@ func RockstarConvertTopN(inFile, outFile string, n int) error {
 		if err != nil { return err }
 	}
 
-	return nil
+	return f.Close()
 }
 
 func ReadBinaryRockstarVals(
-- 
2.43.0


From f5364db25e294e5621b5ddda8e26706592b0d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 65/90] fix: finding subhalos leaves the radii alone

---
 render/halo/finder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index ff98df4..81bc978 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -73,7 +73,9 @@ func (sf *SubhaloFinder) FindSubhalos(
 	c := sf.g.Cells
 	
 	buf := make([]int, 0, sf.g.MaxLength())
-	for i := range rs { rs[i] *= mult }
+	scaled := make([]float64, len(rs))
+	for i := range rs { scaled[i] = rs[i] * mult }
+	rs = scaled
 	cMax := cumulativeMax(rs)
 
 	vol := 0.0
@@ -107,7 +109,6 @@ func (sf *SubhaloFinder) FindSubhalos(
 	}
 
 	sf.crossMatch()
-	for i := range rs { rs[i] /= mult }
 }
 
 func (sf *SubhaloFinder) StartEnd(ih int) (start, end int) {
-- 
2.43.0


From 4324719f8a6d605cf96ce7165fde5a404dbfaa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 66/90] fix: a subhalo finder may be used again

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 81bc978..6902ca2 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -72,6 +72,7 @@ func (sf *SubhaloFinder) FindSubhalos(
 	pos := [3]float64{}
 	c := sf.g.Cells
 	
+	sf.subhalos = make([]int, 0, cap(sf.subhalos))
 	buf := make([]int, 0, sf.g.MaxLength())
 	scaled := make([]float64, len(rs))
 	for i := range rs { scaled[i] = rs[i] * mult }
-- 
2.43.0


From 8ae60633da36fa63f9a5293d8a3c3e294cef3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 67/90] fix: halos overlap across the edges of the box

---
 render/halo/finder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 6902ca2..d4ad270 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -1,6 +1,7 @@
 package halo
 
 import (
+	"math"
 	"sort"
 )
 
@@ -220,13 +221,19 @@ func (sf *SubhaloFinder) markSubhalos(
 	for _, j := range idxs {
 		if j <= ih { continue }
 		sx, sy, sz, sr := xs[j], ys[j], zs[j], rs[j]
-		dx, dy, dz, dr := hx - sx, hy - sy, hz - sz, hr + sr
+		dx, dy, dz, dr := sf.dist(hx, sx), sf.dist(hy, sy), sf.dist(hz, sz), hr + sr
 		if dr*dr >= dx*dx + dy*dy + dz*dz {
 			sf.subhalos = append(sf.subhalos, j)
 		}
 	}
 }
 
+// dist returns the distance between two coordinates in the periodic box.
+func (sf *SubhaloFinder) dist(x, y float64) float64 {
+	d := math.Mod(math.Abs(x - y), sf.g.Width)
+	return math.Min(d, sf.g.Width - d)
+}
+
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
 	max := xs[len(xs) - 1]
-- 
2.43.0


From 75e01b8d409b48a3eb1c7a2492a184656f32d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 68/90] fix: subhalos of spheres which wrap around the box are
 found once

---
 render/halo/finder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index d4ad270..de14f02 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -22,8 +22,10 @@ type Bounds struct {
 func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
 	for i := 0; i < 3; i++ {
 		min, max := pos[i] - r, pos[i] + r
-		if min < 0 { min += width }
-		if min > max { max +=  width }
+		for min < 0 {
+			min += width
+			max += width
+		}
 		minCell, maxCell := int(min / cw), int(max / cw)
 		b.Origin[i] = minCell
 		b.Span[i] = maxCell - minCell + 1
@@ -87,6 +89,9 @@ func (sf *SubhaloFinder) FindSubhalos(
 
 		pos[0], pos[1], pos[2] = xs[ih], ys[ih], zs[ih]
 		b.SphereBounds(pos, rh + maxSR, sf.g.cw, sf.g.Width)
+		for k := range b.Span {
+			if b.Span[k] > c { b.Span[k] = c }
+		}
 		vol += float64(b.Span[0] * b.Span[1] * b.Span[2])
 
 		for dz := 0; dz < b.Span[2]; dz++ {
-- 
2.43.0


From 2b60cc1bc5f54679750bcfebf5d5f5ff7afee80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 69/90] fix: halos on the upper edge of the box fall into a
 cell

---
 render/halo/grid.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/render/halo/grid.go b/render/halo/grid.go
index 5415716..a4d1ea0 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -41,24 +41,7 @@ func (g *Grid) Length(idx int) int {
 func (g *Grid) Insert(xs, ys, zs []float64) {
 	for i := range xs {
 		x, y, z := xs[i], ys[i], zs[i]
-		if x > g.Width {
-			x -= g.Width
-		} else if x < 0 {
-			x += g.Width
-		}
-		if y > g.Width {
-			y -= g.Width
-		} else if y < 0 {
-			y += g.Width
-		}
-		if z > g.Width {
-			z -= g.Width
-		} else if z < 0 {
-			z += g.Width
-		}
-				
-
-		ix, iy, iz := int(x/g.cw), int(y/g.cw), int(z/g.cw)
+		ix, iy, iz := g.cell(x), g.cell(y), g.cell(z)
 		idx := ix + iy * g.Cells + iz * g.Cells * g.Cells
 
 		g.Next[i] = g.Heads[idx]
@@ -66,6 +49,18 @@ func (g *Grid) Insert(xs, ys, zs []float64) {
 	}
 }
 
+// cell returns the cell a coordinate falls into along one dimension.
+func (g *Grid) cell(x float64) int {
+	if x >= g.Width {
+		x -= g.Width
+	} else if x < 0 {
+		x += g.Width
+	}
+	i := int(x / g.cw)
+	if i >= g.Cells { i = g.Cells - 1 } // rounding
+	return i
+}
+
 func (g *Grid) TotalCells() int {
 	return len(g.Heads)
 }
-- 
2.43.0


From 1393a01374c939b2670e7b0d363ba7a233bc7545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 70/90] fix: a catalogue may be empty

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index de14f02..8fc49b9 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -240,6 +240,7 @@ func (sf *SubhaloFinder) dist(x, y float64) float64 {
 }
 
 func cumulativeMax(xs []float64) []float64 {
+	if len(xs) == 0 { return nil }
 	ms := make([]float64, len(xs))
 	max := xs[len(xs) - 1]
 	for i := len(xs) - 1; i >= 0; i-- {
-- 
2.43.0


From 9d07ca672804fe7f6599fca28eac3c808aff28a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 71/90] fix: solutions of linear equations follow the row
 exchanges of the factorisation

---
 math/mat/mat.go   | 3 ++-
 math/mat/mat32.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index fd1dcf3..a73defe 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -297,8 +297,9 @@ func (luf *LUFactors) SolveVector(bs, xs []float64) []float64 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst(n int, pivot []int, lu, bs, ys []float64) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := 0.0
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2532a08..8ca565a 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -201,8 +201,9 @@ func (luf *LUFactors32) SolveVector(bs, xs []float32) []float32 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst32(n int, pivot []int, lu, bs, ys []float32) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := float32(0.0)
-- 
2.43.0


From 3e5cd921a56d8242c2cae77ff58b2be9261c18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 72/90] fix: SolveMatrix solves for the given right hand sides

---
 math/mat/mat.go   | 4 ++--
 math/mat/mat32.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index a73defe..ddfc932 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -326,7 +326,7 @@ func backSubst(n int, lu, ys, xs []float64) {
 // 
 // x and b may point to the same physical memory.
 func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
-	xs := x.Vals
+	bs, xs := b.Vals, x.Vals
 	n := luf.lu.Width
 
 	if b.Width != b.Height {
@@ -343,7 +343,7 @@ func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = bs[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 8ca565a..ff7ce73 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -230,7 +230,7 @@ func backSubst32(n int, lu, ys, xs []float32) {
 // 
 // x and b may point to the same physical memory.
 func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
-	xs := x.Vals
+	bs, xs := b.Vals, x.Vals
 	n := luf.lu.Width
 
 	if b.Width != b.Height {
@@ -247,7 +247,7 @@ func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = bs[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
-- 
2.43.0


From db7c017f2336f897628ed089050571d07d36277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 73/90] fix: products of matrices which are not square

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index ddfc932..8a804b7 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -66,7 +66,7 @@ func (m1 *Matrix) MultAt(m2, out *Matrix) *Matrix {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index ff7ce73..a1cb737 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -59,7 +59,7 @@ func (m1 *Matrix32) MultAt(m2, out *Matrix32) *Matrix32 {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
-- 
2.43.0


From 2daa7b65ec76d3ffa24e2b9280d91a0678074e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 74/90] fix: a column of zeros exchanges no rows

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 8a804b7..62324a1 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -238,8 +238,8 @@ func (lu *LUFactors) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
+		imax := k
 		big := 0.0
 		for i := k; i < n; i++ {
 			tmp := vv[i] * math.Abs(m.Vals[i*n + k])
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index a1cb737..7bff30d 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -142,8 +142,8 @@ func (lu *LUFactors32) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
+		imax := k
 		big := float32(0.0)
 		for i := k; i < n; i++ {
 			tmp := vv[i] * float32(math.Abs(float64(m.Vals[i*n + k])))
-- 
2.43.0


From f52c7c2cbdb616e7b51292162c4edea502b5865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 75/90] fix: the median of an odd number of values is the
 middle one

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index c6c0d45..61bc984 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -18,7 +18,7 @@ func Median(xs []float64, buf ...[]float64) float64 {
 		panic("xs empty in call to Median(xs)")
 	}
 
-	return NthLargest(xs, len(xs) / 2, buf...)
+	return NthLargest(xs, (len(xs) + 1) / 2, buf...)
 }
 
 // Remember that this function is 1-indexed.
-- 
2.43.0


From 9fe4eee22a276c43206cc6da7afa2379e47c5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 76/90] fix: percentiles count from the smallest value

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index 61bc984..c2be700 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -10,7 +10,7 @@ func Percentile(xs []float64, p float64, buf ...[]float64) float64 {
 	n := int(p * float64(len(xs)))
 	if n == len(xs) { n-- }
 
-	return NthLargest(xs, n, buf...)
+	return NthLargest(xs, len(xs) - n, buf...)
 }
 
 func Median(xs []float64, buf ...[]float64) float64 {
-- 
2.43.0


From f6e595383aae0cd8687ee0f1306b5f9208e8d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 77/90] fix: periodic and reflecting boundaries of convolutions

---
 math/interpolate/filter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index f4ae577..b52170e 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -33,7 +33,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	switch {
 	case i < 0:
 		switch b {
-		case Periodic: return xs[len(xs) - 1 + i]
+		case Periodic: return xs[len(xs) + i]
 		case Reflection: return xs[-(i + 1)]
 		case ZeroPad: return 0
 		case Extension: return xs[0]
@@ -42,7 +42,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	case i >= len(xs):
 		switch b {
 		case Periodic: return xs[i - len(xs)]
-		case Reflection: return xs [(len(xs)-1) - (i - len(xs)-1)]
+		case Reflection: return xs[(len(xs)-1) - (i - len(xs))]
 		case ZeroPad: return 0
 		case Extension: return xs[len(xs) - 1]
 		}
@@ -94,8 +94,8 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			idx := i + j - k.center
 			if idx < 0 {
 				switch b {
-				case Periodic: x = xs[(n - 1) + idx]
-				case Reflection: x = xs[-(idx - 1)]
+				case Periodic: x = xs[n + idx]
+				case Reflection: x = xs[-(idx + 1)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
 				}
@@ -121,7 +121,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			if idx >= n {
 				switch b {
 				case Periodic: x = xs[idx - n]
-				case Reflection: x = xs[2*(n-1) - idx]
+				case Reflection: x = xs[2*n - 1 - idx]
 				case ZeroPad: x = 0
 				case Extension: x = xs[n - 1]
 				}
-- 
2.43.0


From bfacc91f0749fa96bd7a1d12ac74539362f4862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 78/90] fix: fourth order derivatives divide by the width of
 their stencil

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index 31d4adc..ad9dae1 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -44,7 +44,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	} else if order == 4 {
 		for i := 2; i < n - 2; i++ {
 			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-1]))
+				(3*(xs[i+2] - xs[i-2]))
 		}
 
 		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-- 
2.43.0


From eba8112a62d8ae998d088067b9df1c36f9df01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 79/90] fix: the barycenter is the mean of all four corners

---
 render/geom/tetra.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 79412a5..c554b89 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -453,7 +453,8 @@ func (t *Tetra) Barycenter() *Vec {
 	}
 
 	for i := 0; i < 3; i++ {
-		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i]) / 4.0
+		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] +
+			t.Corners[2][i] + t.Corners[3][i]) / 4.0
 	}
 
 	t.baryValid = true
-- 
2.43.0


From 562b1a55a4736001b44f1451ded0457f9681f6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 80/90] fix: centered tetrahedra stay inside of the grid along
 every axis

---
 render/geom/tetra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index c554b89..0cecac8 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -122,9 +122,9 @@ func compressCoordsCheck(
 
 	if newX >= countWidth || newX < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 {
+	} else if newY >= countWidth || newY < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 { 
+	} else if newZ >= countWidth || newZ < 0 {
 		return -1, false
 	}	
 
-- 
2.43.0


From 5d962486be08f6635bf8884a9240a9c8373fdcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 81/90] fix: v1.Cross(v2) is v1 x v2

---
 render/geom/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 7ba4d3f..4b7cbc5 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -125,7 +125,7 @@ func (v1 *Vec) CrossSelf(v2 *Vec) *Vec {
 	return v1.CrossAt(v2, v1)
 }
 
-func (v2 *Vec) CrossAt(v1, out *Vec) *Vec {
+func (v1 *Vec) CrossAt(v2, out *Vec) *Vec {
 	out0 := v1[1]*v2[2] - v1[2]*v2[1]
 	out1 := v1[2]*v2[0] - v1[0]*v2[2]
 	out2 := v1[0]*v2[1] - v1[1]*v2[0]
-- 
2.43.0


From d92eda778ff9c730255f90d62ff40dc1e4b6e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 82/90] fix: vectors just below zero wrap to inside of the box

---
 render/geom/vec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 4b7cbc5..4031540 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -47,6 +47,7 @@ func (v *Vec) ModAt(width float64, out *Vec) *Vec {
 			out[i] -= w
 		} else if out[i] < 0 {
 			out[i] += w
+			if out[i] >= w { out[i] = 0 } // rounding
 		}
 	}
 	return out
-- 
2.43.0


From bf3c155d4ead4e3c72e4cef9f272bc629f442860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 83/90] fix: derivatives of unevenly spaced points follow the
 points

---
 math/calc/deriv.go | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index ad9dae1..0340da9 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -35,28 +35,35 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 
 	if order == 0 {
 		for i := range xs { out[i] = xs[i] }
-	} else if order == 2 {
-		for i := 1; i < n - 1; i++ {
-			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
+	} else if order == 2 || order == 4 {
+		if n < order + 1 { panic("Too few points.") }
+		for i := range xs {
+			// The stencil is centered on i, unless that's too close to an edge.
+			lo := i - order / 2
+			if lo < 0 { lo = 0 }
+			if lo > n - order - 1 { lo = n - order - 1 }
+			hi := lo + order + 1
+			out[i] = polyDeriv(xs[lo: hi], ys[lo: hi], i - lo)
 		}
-		out[0] = (-3*ys[0] + 4*ys[1] - ys[2]) / (xs[2] - xs[0])
-		out[n-1] = -(-3*ys[n-1] + 4*ys[n-2] - ys[n-3]) / (xs[n-1] - xs[n-3])
-	} else if order == 4 {
-		for i := 2; i < n - 2; i++ {
-			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-2]))
-		}
-
-		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-			25*ys[0]) / (3*(xs[4] - xs[0])))
-		out[n-2]= ((-3*ys[n-1] - 10*ys[n-2] + 18*ys[n-3] - 6*ys[n-4] +
-			ys[n-5]) / (3*(xs[n-5] - xs[n-1])))
-		out[1]= ((-3*ys[0] - 10*ys[1] + 18*ys[2] - 6*ys[3] +
-			ys[4]) / (3*(xs[4] - xs[0])))
-		out[n-1] = ((-3*ys[n-5] + 16*ys[n-4] - 36*ys[n-3] + 48*ys[n-2] -
-			25*ys[n-1]) / (3*(xs[n-5] - xs[n-1])))
 	} else {
 		panic("Invalid order.")
 	}
 	return out
 }
+
+// polyDeriv returns the derivative at xs[i] of the polynomial which passes
+// through all the given points.
+func polyDeriv(xs, ys []float64, i int) float64 {
+	sum := 0.0
+	for k := range xs {
+		if k == i { continue }
+		weight := 1 / (xs[k] - xs[i])
+		for j := range xs {
+			if j != i && j != k {
+				weight *= (xs[i] - xs[j]) / (xs[k] - xs[j])
+			}
+		}
+		sum += weight * (ys[k] - ys[i])
+	}
+	return sum
+}
-- 
2.43.0


From c6862f3a2621e62cbc658656c8a0b2c465d4260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 84/90] fix: velocity bounds of a segment include the first
 velocity of the sheet

---
 render/main/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 1301a5b..d38b8b6 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -533,8 +533,8 @@ func copyToSegment(shd *io.SheetHeader, xs, vs, xsSeg, vsSeg []geom.Vec) {
 
 	// smallidx is the index within the segment.
 	smallIdx := 0
-	vMin := vs[0]
-	vMax := vs[0]
+	vMin := vs[xStart + N * yStart + N2 * zStart]
+	vMax := vMin
 
 	for z := zStart; z < zStart + shd.GridWidth; z++ {
 		zIdx := z
-- 
2.43.0


From 756085e4665995808156ee721eeb907218a18d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 85/90] fix: Sobol sequences may be asked for more dimensions
 than before

---
 math/rand/sobol.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index e9525f5..8a5b8ad 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -94,10 +94,9 @@ func (seq *SobolSequence) NextAt(target []float64) {
 	seq.seqNum++
 
 	im := zeroIdx * MaxDim
-	for k := uint32(0); k < dim; k++ {
-		seq.ix[k] ^= seq.iv[im + k]
-		target[k] = float64(seq.ix[k]) * fac
-	}
+	// Every dimension takes part so that later calls may ask for more of them.
+	for k := range seq.ix { seq.ix[k] ^= seq.iv[im + uint32(k)] }
+	for k := range target { target[k] = float64(seq.ix[k]) * fac }
 }
 
 func min(x, y int) int {
-- 
2.43.0


From a2111a4422880eb761300f18a1a0249987a696e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 86/90] fix: the density quantity has no name

---
 render/density/quantity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/quantity.go b/render/density/quantity.go
index b17327e..7a201b7 100644
--- a/render/density/quantity.go
+++ b/render/density/quantity.go
@@ -15,7 +15,7 @@ const (
 )
 
 func (q Quantity) String() string {
-	if q <= 0 || q >= EndQuantity {
+	if q < 0 || q >= EndQuantity {
 		panic(fmt.Sprintf("Value %d out of range for Quantity type.", q))
 	}
 
-- 
2.43.0


From feaabd7ef25031d85b4a6d09d440049986ad830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 87/90] fix: example configurations which cannot be printed are
 reported as printed

---
 render/main/main.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index d38b8b6..fcf17ba 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -207,15 +207,15 @@ func main() {
 	case "ExampleConfig":
 		switch exampleConfig {
 		case "ConvertSnapshot":
-			fmt.Println(io.ExampleConvertSnapshotFile)
+			printExample(io.ExampleConvertSnapshotFile)
 		case "Render":
-			fmt.Println(io.ExampleRenderFile)
+			printExample(io.ExampleRenderFile)
 		case "TetraHist":
-			fmt.Println(io.ExampleTetraHistFile)
+			printExample(io.ExampleTetraHistFile)
 		case "Box":
-			fmt.Println(io.ExampleBoxFile)
+			printExample(io.ExampleBoxFile)
 		case "Ball":
-			fmt.Println(io.ExampleBallFile)
+			printExample(io.ExampleBallFile)
 		default:
 			log.Fatal(
 				"Unrecognized 'ExampleConfig' argument. Only recognized " +
@@ -228,6 +228,13 @@ func main() {
 	}
 }
 
+// printExample prints an example configuration file to stdout.
+func printExample(text string) {
+	_, err := fmt.Println(text)
+	if err == nil { err = os.Stdout.Close() }
+	if err != nil { log.Fatal(err.Error()) }
+}
+
 // getModeName returns the name of the mode and fails with a descriptive error 
 // if the user provided less or more than one mode flag.
 func getModeName(vars map[string]*string) (string, error) {
-- 
2.43.0


From 5ff3fbee5658cd295724ed2769b8b13cbc1e876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 88/90] fix: the help text names an example configuration which
 does not exist

---
 render/main/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index fcf17ba..e35c150 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -84,7 +84,7 @@ func main() {
 		&exampleConfig,
 		"ExampleConfig", "", "Prints an example configuration file of the " + 
 			"specified type to stdout. Accepted arguments are 'Render', " +
-			"'ConvertSnapshot', and 'Bounds'.",
+			"'ConvertSnapshot', 'TetraHist', 'Box', and 'Ball'.",
 	)
 	flag.StringVar(
 		&tetraHistStr, "TetraHist", "", 
-- 
2.43.0


From 8a40217443deaa4322c13f39969a71b514bd459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 89/90] fix: conversions ignore LogFile and ProfileFile

---
 render/main/main.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index e35c150..974c2f1 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -31,6 +31,29 @@ type FileGroup struct {
 	log, prof *os.File
 }
 
+// openFileGroup sets up the log and profile files which con asks for.
+func openFileGroup(con *io.SharedConfig) *FileGroup {
+	var err error
+	fg := new(FileGroup)
+
+	// Set up log file.
+	if con.ValidLogFile() {
+		fg.log, err = os.Create(con.LogFile)
+		if err != nil { log.Fatal(err.Error()) }
+		log.SetOutput(fg.log)
+	}
+
+	// Set up profile file.
+	if con.ValidProfileFile() {
+		fg.prof, err = os.Create(con.ProfileFile)
+		if err != nil { log.Fatal(err.Error()) }
+		err = pprof.StartCPUProfile(fg.prof)
+		if err != nil { log.Fatal(err.Error()) }
+	}
+
+	return fg
+}
+
 // Close closes the files inside FileGroup.
 func (fg *FileGroup) Close() {
 	if fg.log != nil {
@@ -262,6 +285,9 @@ func getModeName(vars map[string]*string) (string, error) {
 // lGadget2Main converts a set of LGadget-2 snapshots to gotetra files
 // based on the input config file.
 func lGadget2Main(con *io.ConvertSnapshotConfig) {
+	fg := openFileGroup(&con.SharedConfig)
+	defer fg.Close()
+
 	if !con.ValidIteratedInput() {
 		con.IterationStart = 0
 		con.IterationEnd = 0
-- 
2.43.0


From be083b5d0c562c5f4a6735d4e8dbc9539f07877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:49 +0000
Subject: [PATCH 90/90] fix: ranks outside of the array select some element of
 it

---
 math/sort/median.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math/sort/median.go b/math/sort/median.go
index c2be700..f0d6dc1 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -25,6 +25,8 @@ func Median(xs []float64, buf ...[]float64) float64 {
 func NthLargest(xs []float64, n int, buf ...[]float64) float64 {
 	if len(xs) == 0 {
 		panic("xs empty in call to NthHighest(xs, ns)")
+	} else if n < 1 || n > len(xs) {
+		panic("n in NthLargest(xs, n) too large or too small")
 	}
 
 	var medSlice []float64
-- 
2.43.0

