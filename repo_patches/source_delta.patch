From b8dd4cd2304364e39e50856c65528d0b7625e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 01/29] fix: languages added to or removed from a resource
 after its type was ordered were left out

---
 rsrc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsrc.go b/rsrc.go
index daf302f..321d36c 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -245,6 +245,10 @@ func (te *typeEntry) size() int {
 // It calls resourceEntry.order() too, for each resource entry it owns.
 func (te *typeEntry) order() {
 	if te.orderedKeys != nil {
+		// Resources are still ordered, but their languages may have changed
+		for _, re := range te.resources {
+			re.order()
+		}
 		return
 	}
 
-- 
2.43.0


From 33f01b3889c6b4adc622d7354d825bd0ba2979ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 02/29] fix: loading a resource directory with more than 65535
 entries lost some of them

---
 rsrc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsrc.go b/rsrc.go
index 321d36c..4896ad3 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -507,7 +507,7 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		return nil, err
 	}
 
-	dir := make([]resourceDirectoryIDEntry, table.NumberOfNameEntries+table.NumberOfIDEntries)
+	dir := make([]resourceDirectoryIDEntry, int(table.NumberOfNameEntries)+int(table.NumberOfIDEntries))
 	err = binaryRead(section, &dir)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4269ac222144750dfb9863ffc3356ac1398daa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 03/29] fix: cursors made from opaque images had no AND mask
 and a wrong declared depth

---
 cursor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index c0ea9e6..40aa90f 100644
--- a/cursor.go
+++ b/cursor.go
@@ -292,12 +292,18 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	dib[8] = byte(height << 1)
 	dib[9] = byte(height >> 7)
 
+	bitCount := uint16(dib[15])<<8 | uint16(dib[14])
+	if bitCount < 32 {
+		// The image is opaque, so it was encoded without an alpha channel, which requires an AND mask.
+		dib = append(dib, make([]byte, (width+31)/32*4*height)...)
+	}
+
 	cursor.images = append(cursor.images, cursorImage{
 		info: cursorInfo{
 			Width:      uint16(width),
 			Height:     uint16(height),
 			Planes:     1,
-			BitCount:   32,
+			BitCount:   bitCount,
 			BytesInRes: uint32(len(dib) + 4), // +4 for the hot spot
 		},
 		hotSpot: hotSpot,
-- 
2.43.0


From 73573fe202113a6bb4a8f7dae43fc88b953c67fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 04/29] fix: panic on truncated cursor images

---
 cursor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cursor.go b/cursor.go
index 40aa90f..6501c0f 100644
--- a/cursor.go
+++ b/cursor.go
@@ -202,6 +202,9 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 		if img == nil {
 			return nil, errors.New(errCursorMissing)
 		}
+		if len(img) < 4 {
+			return nil, errors.New(errInvalidGroup)
+		}
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
@@ -327,6 +330,10 @@ func readDIBBitCount(data []byte) (uint16, uint16, error) {
 		return 1, 32, nil
 	}
 
+	if len(data) < 16 {
+		return 0, 0, errors.New(errUnknownImageFormat)
+	}
+
 	hdrSize := uint32(data[3])<<24 | uint32(data[2])<<16 | uint32(data[1])<<8 | uint32(data[0])
 
 	if hdrSize != 40 && hdrSize != 108 && hdrSize != 124 {
-- 
2.43.0


From 6a6f5e041c5f4683d2b9f4ec3862ef1d00029367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 05/29] fix: adding an icon or a cursor left images in the
 resource set when it failed

---
 cursor.go | 8 ++++++++
 icon.go   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cursor.go b/cursor.go
index 6501c0f..f42de30 100644
--- a/cursor.go
+++ b/cursor.go
@@ -150,6 +150,14 @@ func (rs *ResourceSet) SetCursor(resID Identifier, cursor *Cursor) error {
 
 // SetCursorTranslation adds the cursor to a specific language in the resource set.
 func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cursor *Cursor) error {
+	// Check everything first, so that nothing is added in case of error
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+	if len(cursor.images) > 0xFFFF-int(rs.lastCursorID) {
+		return errors.New(errZeroID)
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, cursorDirHeader{
 		Type:  2,
diff --git a/icon.go b/icon.go
index fb634d3..f65ce2d 100644
--- a/icon.go
+++ b/icon.go
@@ -156,6 +156,14 @@ func (rs *ResourceSet) SetIcon(resID Identifier, icon *Icon) error {
 //  2. First ID in ascending order
 //
 func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon *Icon) error {
+	// Check everything first, so that nothing is added in case of error
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+	if len(icon.images) > 0xFFFF-int(rs.lastIconID) {
+		return errors.New(errZeroID)
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, iconDirHeader{
 		Type:  1,
-- 
2.43.0


From 158d1d6af3f1d541f6ea7bbb3e990ff42c15dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 06/29] fix: cursor groups made from a CUR file gave a wrong
 resource size

---
 cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cursor.go b/cursor.go
index f42de30..328cad3 100644
--- a/cursor.go
+++ b/cursor.go
@@ -168,6 +168,7 @@ func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cur
 	for _, img := range cursor.images {
 		id := rs.lastCursorID + 1
 
+		img.info.BytesInRes = uint32(len(img.image) + 4) // +4 for the hot spot
 		binary.Write(b, binary.LittleEndian, cursorResDirEntry{
 			cursorInfo: img.info,
 			Id:         id,
-- 
2.43.0


From 397705bac032c3ea071b3a9d85e193ee92e3ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 07/29] fix: saving an icon whose group gave a wrong image size
 made an invalid ICO file

---
 icon.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/icon.go b/icon.go
index f65ce2d..197d3c7 100644
--- a/icon.go
+++ b/icon.go
@@ -116,8 +116,10 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 
 	icon.order()
 	for i := range icon.images {
+		info := icon.images[i].info
+		info.BytesInRes = uint32(len(icon.images[i].image)) // a group loaded from an executable may contain anything
 		err = binary.Write(ico, binary.LittleEndian, &iconFileDirEntry{
-			iconInfo:    icon.images[i].info,
+			iconInfo:    info,
 			ImageOffset: uint32(offset),
 		})
 		if err != nil {
-- 
2.43.0


From 8f5816f46c0bc0b8c802b8bfff1fe55dac77b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 08/29] fix: panics on malformed executables, and on
 executables without base relocations

---
 exe.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index 9422d01..8bd3e5f 100644
--- a/exe.go
+++ b/exe.go
@@ -286,6 +286,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
+	if pew.h.opt.getFileAlignment() == 0 || pew.h.opt.getSectionAlignment() == 0 {
+		return nil, errors.New(errNotPEImage)
+	}
+
 	if len(pew.h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0 {
 		switch sigHandling {
 		case RemoveSignature:
@@ -374,7 +378,7 @@ func (pew *peWriter) requiresNewSection() bool {
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-	if pew.relocHdr.VirtualAddress == endOfRSRC &&
+	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
 		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
 		return false
 	}
@@ -631,7 +635,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	if optHdr[0] != 11 {
+	if len(optHdr) < 2 || optHdr[0] != 11 {
 		return nil, errors.New(errUnknownPE)
 	}
 	switch optHdr[1] {
@@ -658,7 +662,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	h.dirs = make([]pe.DataDirectory, numDirs)
 	binaryRead(optRead, &h.dirs)
 
-	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, h.file.NumberOfSections+1)
+	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, int(h.file.NumberOfSections)+1)
 	err = binaryRead(r, &h.sections)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9e59ccf4df3579ef9918251888eed61eef3cd616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 09/29] fix: section headers whose end overflows were accepted,
 which made huge files

---
 exe.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exe.go b/exe.go
index 8bd3e5f..1a7e2a2 100644
--- a/exe.go
+++ b/exe.go
@@ -339,6 +339,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 				return errors.New(errRSRCTwice)
 			}
 			pew.rsrcHdr = &pew.h.sections[i]
+			if int64(pew.rsrcHdr.PointerToRawData)+int64(pew.rsrcHdr.SizeOfRawData) > pew.src.fileSize {
+				return io.ErrUnexpectedEOF
+			}
 			pew.src.rsrcEnd = int64(pew.roundRaw(pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData))
 		}
 		if pew.h.sections[i].VirtualAddress == pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BASERELOC].VirtualAddress {
@@ -358,6 +361,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
+		if int64(pew.h.sections[i].PointerToRawData)+int64(pew.h.sections[i].SizeOfRawData) > pew.src.fileSize {
+			return io.ErrUnexpectedEOF
+		}
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
 			pew.src.dataOffset = pew.h.sections[i].PointerToRawData
 		}
-- 
2.43.0


From 7ea7fd1610b66ffe5adf0465588161424c1ab377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 10/29] fix: executables with sections that have no raw data
 were corrupted or wrongly refused

---
 exe.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/exe.go b/exe.go
index 1a7e2a2..de50507 100644
--- a/exe.go
+++ b/exe.go
@@ -311,6 +311,9 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
+	if pew.src.dataEnd == 0 {
+		return nil, errors.New(errNoRoomForRSRC)
+	}
 	if pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
@@ -361,6 +364,10 @@ func (pew *peWriter) fillSectionsInfo() error {
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
+		if pew.h.sections[i].SizeOfRawData == 0 {
+			// An empty section doesn't occupy any data either, and its pointer is meaningless.
+			continue
+		}
 		if int64(pew.h.sections[i].PointerToRawData)+int64(pew.h.sections[i].SizeOfRawData) > pew.src.fileSize {
 			return io.ErrUnexpectedEOF
 		}
-- 
2.43.0


From 56442cbbbec4dcab4eae34423841fdfaa8d99a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 11/29] fix: section headers could overwrite the first section
 when an existing .rsrc section was abandoned

---
 exe.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index de50507..1fb39fb 100644
--- a/exe.go
+++ b/exe.go
@@ -317,9 +317,6 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
-		return nil, errors.New(errNoRoomForRSRC)
-	}
 
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
@@ -327,6 +324,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr = nil
 	}
 
+	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+		return nil, errors.New(errNoRoomForRSRC)
+	}
+
 	pew.updateHeaders()
 
 	return &pew, nil
-- 
2.43.0


From 7fa27a52080118ddf70e3600b1395fd9af3b1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 12/29] fix: data following the last section was lost or
 duplicated when a .rsrc section was added

---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index 1fb39fb..9ff5a67 100644
--- a/exe.go
+++ b/exe.go
@@ -327,6 +327,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
+	if pew.rsrcHdr == nil {
+		// The new section comes after the last one, and before everything that follows it
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
+	}
 
 	pew.updateHeaders()
 
-- 
2.43.0


From 4190bc27472402343fe1a4f3ff850710382a9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 13/29] fix: wrong pointer to the certificates or to the symbol
 table after they have moved

---
 exe.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index 9ff5a67..7c0274a 100644
--- a/exe.go
+++ b/exe.go
@@ -456,8 +456,13 @@ func (pew *peWriter) updateHeaders() {
 		}
 	}
 
-	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= pew.src.dataEnd {
-		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += lastSection.PointerToRawData + lastSection.SizeOfRawData - pew.src.dataEnd
+	// Everything that follows the resource section in the file moves with its end
+	rawShift := pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - uint32(pew.src.rsrcEnd)
+	if int64(pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress) >= pew.src.rsrcEnd {
+		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += rawShift
+	}
+	if int64(pew.h.file.PointerToSymbolTable) >= pew.src.rsrcEnd {
+		pew.h.file.PointerToSymbolTable += rawShift
 	}
 
 	pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress = pew.rsrcHdr.VirtualAddress
-- 
2.43.0


From a67bfb950095a0610e2fc9d5a7063c3f62f149af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 14/29] fix: sections following .rsrc moved when its virtual
 and raw sizes were too different

---
 exe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 7c0274a..3e49a1a 100644
--- a/exe.go
+++ b/exe.go
@@ -402,7 +402,8 @@ func (pew *peWriter) requiresNewSection() bool {
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
-	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) {
+	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
-- 
2.43.0


From a528b9c64e12abd8a3ac55cdebc0f59524a37f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 15/29] fix: padding was wrong when writing an executable to a
 pipe, an existing file or in append mode

---
 exe.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/exe.go b/exe.go
index 3e49a1a..4bf2153 100644
--- a/exe.go
+++ b/exe.go
@@ -587,16 +587,6 @@ func writeBlank(w io.Writer, length int64) error {
 		return nil
 	}
 
-	if ws, ok := w.(io.WriteSeeker); ok {
-		ws.Seek(length-1, io.SeekCurrent)
-		var b [1]byte
-		_, err := w.Write(b[:])
-		if err != nil {
-			return err
-		}
-		return nil
-	}
-
 	const bufLen = 0x100
 	var b [bufLen]byte
 	for length > 0 {
-- 
2.43.0


From 83e25d0ba58b95992af18ba9b61a6265bf5e8385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:38 +0000
Subject: [PATCH 16/29] fix: some I/O errors were ignored when loading or
 patching an executable

---
 exe.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/exe.go b/exe.go
index 4bf2153..f6718f9 100644
--- a/exe.go
+++ b/exe.go
@@ -197,7 +197,9 @@ func (h *peOptionalHeader64) setCheckSum(c uint32) {
 }
 
 func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
-	r.Seek(0, io.SeekStart)
+	if _, err := r.Seek(0, io.SeekStart); err != nil {
+		return nil, 0, err
+	}
 
 	fileSize := getSeekerSize(r)
 
@@ -226,7 +228,10 @@ func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
 	}
 	data := make([]byte, sec.SizeOfRawData)
 
-	r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	_, err = r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 	err = readFull(r, data)
 	if err != nil {
 		return nil, 0, err
@@ -252,7 +257,9 @@ type peWriter struct {
 }
 
 func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc []int, options exeOptions) error {
-	src.Seek(0, io.SeekStart)
+	if _, err := src.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 
 	pew, err := preparePEWriter(src, rsrcData, options.authenticodeHandling)
 	if err != nil {
@@ -263,7 +270,9 @@ func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc
 
 	if options.forceCheckSum || pew.h.hasChecksum {
 		c := peCheckSum{}
-		pew.writeEXE(&c)
+		if err := pew.writeEXE(&c); err != nil {
+			return err
+		}
 		pew.h.opt.setCheckSum(c.Sum())
 	}
 
@@ -628,7 +637,10 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	r.Seek(h.stubLength, io.SeekStart)
+	_, err = r.Seek(h.stubLength, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 
 	var sig [4]byte
 	err = readFull(r, sig[:])
-- 
2.43.0


From 96b13724e35f0a450c1d2698e263596e0c8e532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 17/29] fix: panics on empty strings in version info, on null
 string tables in JSON and on empty tables

---
 version/binary.go  | 5 +++--
 version/json.go    | 2 +-
 version/version.go | 6 +++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/version/binary.go b/version/binary.go
index 4799cf4..ef65c10 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -374,11 +374,12 @@ func readString(data []byte, pos *int) (string, error) {
 }
 
 func readStringWithLength(data []byte, pos *int, length int) (string, error) {
-	data = data[*pos:]
-
 	if length == 0 {
 		return "", nil
 	}
+
+	data = data[*pos:]
+
 	if length < 0 || length > len(data)/2 {
 		return "", errors.New(errInvalidStringLength)
 	}
diff --git a/version/json.go b/version/json.go
index ca1e1a5..f9fb898 100644
--- a/version/json.go
+++ b/version/json.go
@@ -103,7 +103,7 @@ func (vi *Info) UnmarshalJSON(b []byte) error {
 	for h, v := range jvi.Info {
 		var k uint16
 		_, err := fmt.Sscanf(h, "%X", &k)
-		if err == nil {
+		if err == nil && v != nil {
 			vi.lt[k] = v
 		}
 	}
diff --git a/version/version.go b/version/version.go
index 8997ac2..bc0ef1c 100644
--- a/version/version.go
+++ b/version/version.go
@@ -355,5 +355,9 @@ func (lt LangTable) GetMainTranslation() StringTable {
 			lang = k
 		}
 	}
-	return *lt[lang]
+	main = lt[lang]
+	if main == nil {
+		return nil
+	}
+	return *main
 }
-- 
2.43.0


From e16a87307010fc218443fc5c64970508cd29a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 18/29] fix: version strings with no NUL or several NULs at
 their end were truncated or lost

---
 version/binary.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/version/binary.go b/version/binary.go
index ef65c10..5891cbc 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -384,12 +384,16 @@ func readStringWithLength(data []byte, pos *int, length int) (string, error) {
 		return "", errors.New(errInvalidStringLength)
 	}
 
-	length--
-	wString := make([]uint16, length)
+	// Length should include exactly one terminating NUL, but some tools write none, or more than one
+	wString := make([]uint16, 0, length)
 	for i := 0; i < length; i++ {
-		wString[i] = uint16(data[i*2+1])<<8 | uint16(data[i*2])
+		c := uint16(data[i*2+1])<<8 | uint16(data[i*2])
+		if c == 0 {
+			break
+		}
+		wString = append(wString, c)
 	}
-	*pos += (length + 1) * 2
+	*pos += length * 2
 
 	return string(utf16.Decode(wString)), nil
 }
-- 
2.43.0


From 651e8a7e3b2df10bf32b4e684b9e0056a6041729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 19/29] fix: manifests were not well-formed or did not keep
 texts containing control characters

---
 manifest.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/manifest.go b/manifest.go
index 08c037f..dc10664 100644
--- a/manifest.go
+++ b/manifest.go
@@ -95,10 +95,10 @@ var manifestTemplate = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0">
 {{- if .AssemblyName}}
 
-  <assemblyIdentity type="win32" name="{{.AssemblyName | html}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
+  <assemblyIdentity type="win32" name="{{.AssemblyName | xml}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
 {{- end}}
 {{- if .Description}}
-  <description>{{.Description | html}}</description>
+  <description>{{.Description | xml}}</description>
 {{- end}}
 
   <compatibility xmlns="urn:schemas-microsoft-com:compatibility.v1">
@@ -224,7 +224,7 @@ func makeManifest(manifest AppManifest) []byte {
 	}
 
 	buf := &bytes.Buffer{}
-	tmpl := template.Must(template.New("manifest").Parse(manifestTemplate))
+	tmpl := template.Must(template.New("manifest").Funcs(template.FuncMap{"xml": escapeXML}).Parse(manifestTemplate))
 	err := tmpl.Execute(buf, vars)
 	if err != nil {
 		panic(err)
@@ -233,6 +233,16 @@ func makeManifest(manifest AppManifest) []byte {
 	return buf.Bytes()
 }
 
+// escapeXML escapes a text so that an XML parser reads it back unchanged.
+//
+// It replaces characters XML cannot represent with U+FFFD.
+func escapeXML(s string) (string, error) {
+	buf := &bytes.Buffer{}
+	err := xml.EscapeText(buf, []byte(s))
+	// Keep line feeds readable
+	return strings.ReplaceAll(buf.String(), "&#xA;", "\n"), err
+}
+
 type appManifestXML struct {
 	Identity struct {
 		Name    string `xml:"name,attr"`
-- 
2.43.0


From 10311bacb36a9109e72e422bb052b30f4c494b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 20/29] fix: supported OS identifiers in capital letters were
 not recognized in manifests

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index dc10664..3f66315 100644
--- a/manifest.go
+++ b/manifest.go
@@ -390,7 +390,7 @@ func manifestBool(s string) bool {
 }
 
 func osIDToEnum(osID string) SupportedOS {
-	switch osID {
+	switch manifestString(osID) {
 	case osWinVista:
 		return WinVistaAndAbove
 	case osWin7:
-- 
2.43.0


From 6ee335c67dd2b6063adb1af7ed3eebd3ae67fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:56 +0000
Subject: [PATCH 21/29] fix: cursors made from a custom image type lost their
 transparency

---
 icon.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/icon.go b/icon.go
index 197d3c7..8c2a526 100644
--- a/icon.go
+++ b/icon.go
@@ -6,7 +6,6 @@ import (
 	"errors"
 	"fmt"
 	"image"
-	"image/color"
 	"image/png"
 	"io"
 	"sort"
@@ -337,8 +336,8 @@ func resizeImage(img image.Image, size int) image.Image {
 
 func imageInSquareNRGBA(img image.Image, center bool) image.Image {
 	w, h := img.Bounds().Size().X, img.Bounds().Size().Y
-	if w == h && img.ColorModel() == color.NRGBAModel {
-		return img
+	if nrgba, ok := img.(*image.NRGBA); ok && w == h {
+		return nrgba
 	}
 
 	length := w
-- 
2.43.0


From 98c673df2f037954c4532403a9e4c7d6f836dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:56 +0000
Subject: [PATCH 22/29] fix: very thin images could not be resized to make an
 icon

---
 icon.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/icon.go b/icon.go
index 8c2a526..90b9388 100644
--- a/icon.go
+++ b/icon.go
@@ -331,6 +331,13 @@ func resizeImage(img image.Image, size int) image.Image {
 		h = 0
 	}
 
+	// The shorter side of a very thin image must not become zero
+	if w == 0 && size*sz.X < sz.Y {
+		w = 1
+	} else if h == 0 && size*sz.Y < sz.X {
+		h = 1
+	}
+
 	return resize.Resize(uint(w), uint(h), img, resize.Lanczos2)
 }
 
-- 
2.43.0


From c50b0af7deaf39d9a164208aa4256ba45be7140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 23/29] fix: invalid icon sizes caused panics or huge memory
 allocations

---
 icon.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/icon.go b/icon.go
index 90b9388..2721d3a 100644
--- a/icon.go
+++ b/icon.go
@@ -49,6 +49,15 @@ func NewIconFromResizedImage(img image.Image, sizes []int) (*Icon, error) {
 		return nil, errors.New(errTooManyIconSizes)
 	}
 
+	for _, s := range sizes {
+		if s <= 0 {
+			return nil, errors.New(errInvalidImageDimensions)
+		}
+		if s > 256 {
+			return nil, errors.New(errImageTooBig)
+		}
+	}
+
 	icon := Icon{}
 	for _, s := range sizes {
 		if err := icon.addImage(resizeImage(img, s)); err != nil {
-- 
2.43.0


From ea55afd6fea14cd2249ab0878713d1608442b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:30 +0000
Subject: [PATCH 24/29] fix: line feeds in the identity name of a manifest were
 not escaped

---
 manifest.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/manifest.go b/manifest.go
index 3f66315..459ebcc 100644
--- a/manifest.go
+++ b/manifest.go
@@ -95,7 +95,7 @@ var manifestTemplate = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0">
 {{- if .AssemblyName}}
 
-  <assemblyIdentity type="win32" name="{{.AssemblyName | xml}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
+  <assemblyIdentity type="win32" name="{{.AssemblyName | xmlattr}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
 {{- end}}
 {{- if .Description}}
   <description>{{.Description | xml}}</description>
@@ -224,7 +224,7 @@ func makeManifest(manifest AppManifest) []byte {
 	}
 
 	buf := &bytes.Buffer{}
-	tmpl := template.Must(template.New("manifest").Funcs(template.FuncMap{"xml": escapeXML}).Parse(manifestTemplate))
+	tmpl := template.Must(template.New("manifest").Funcs(template.FuncMap{"xml": escapeXML, "xmlattr": escapeXMLAttr}).Parse(manifestTemplate))
 	err := tmpl.Execute(buf, vars)
 	if err != nil {
 		panic(err)
@@ -237,10 +237,16 @@ func makeManifest(manifest AppManifest) []byte {
 //
 // It replaces characters XML cannot represent with U+FFFD.
 func escapeXML(s string) (string, error) {
+	s, err := escapeXMLAttr(s)
+	// Keep line feeds readable
+	return strings.ReplaceAll(s, "&#xA;", "\n"), err
+}
+
+// escapeXMLAttr does the same in an attribute, where an XML parser would read a line feed as a space.
+func escapeXMLAttr(s string) (string, error) {
 	buf := &bytes.Buffer{}
 	err := xml.EscapeText(buf, []byte(s))
-	// Keep line feeds readable
-	return strings.ReplaceAll(buf.String(), "&#xA;", "\n"), err
+	return buf.String(), err
 }
 
 type appManifestXML struct {
-- 
2.43.0


From 113670530f72ee62277c4400a7c7cfe797df724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 25/29] fix: adding an icon whose group gave a wrong image size
 copied that size

---
 icon.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/icon.go b/icon.go
index 2721d3a..53094f4 100644
--- a/icon.go
+++ b/icon.go
@@ -185,6 +185,7 @@ func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon
 	for _, img := range icon.images {
 		id := rs.lastIconID + 1
 
+		img.info.BytesInRes = uint32(len(img.image)) // a group loaded from an executable may contain anything
 		binary.Write(b, binary.LittleEndian, iconResDirEntry{
 			iconInfo: img.info,
 			Id:       id,
-- 
2.43.0


From cfe625c59f714a7ae6e1f0b0f23aeba309bb4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 26/29] fix: the size of initialized data counted a new .rsrc
 section twice

---
 exe.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/exe.go b/exe.go
index f6718f9..7c74b65 100644
--- a/exe.go
+++ b/exe.go
@@ -445,7 +445,6 @@ func (pew *peWriter) updateHeaders() {
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
 		lastSection = pew.rsrcHdr
-		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() + rsrcLen)
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
 		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
-- 
2.43.0


From b05c5966fd78170af88802230ba0f71e5db347d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 27/29] fix: the headers of an executable could overlap its
 first section in memory, or exceed their declared size

---
 exe.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 7c74b65..75933d7 100644
--- a/exe.go
+++ b/exe.go
@@ -61,9 +61,11 @@ type peOptionalHeader interface {
 	getFileAlignment() uint32
 	getNumberOfRvaAndSizes() uint32
 	getCheckSum() uint32
+	getSizeOfHeaders() uint32
 
 	setSizeOfInitializedData(uint32)
 	setSizeOfImage(uint32)
+	setSizeOfHeaders(uint32)
 	setCheckSum(uint32)
 }
 
@@ -120,6 +122,10 @@ func (h *peOptionalHeader32) getCheckSum() uint32 {
 	return h.CheckSum
 }
 
+func (h *peOptionalHeader32) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
 func (h *peOptionalHeader32) setSizeOfInitializedData(s uint32) {
 	h.SizeOfInitializedData = s
 }
@@ -128,6 +134,10 @@ func (h *peOptionalHeader32) setSizeOfImage(s uint32) {
 	h.SizeOfImage = s
 }
 
+func (h *peOptionalHeader32) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 func (h *peOptionalHeader32) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
@@ -184,6 +194,10 @@ func (h *peOptionalHeader64) getCheckSum() uint32 {
 	return h.CheckSum
 }
 
+func (h *peOptionalHeader64) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
 func (h *peOptionalHeader64) setSizeOfInitializedData(s uint32) {
 	h.SizeOfInitializedData = s
 }
@@ -192,6 +206,10 @@ func (h *peOptionalHeader64) setSizeOfImage(s uint32) {
 	h.SizeOfImage = s
 }
 
+func (h *peOptionalHeader64) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 func (h *peOptionalHeader64) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
@@ -251,6 +269,7 @@ type peWriter struct {
 		sigSize    int64 // size of a code signature we'd want to skip (only if it is at the end of the file)
 		dataOffset uint32
 		dataEnd    uint32
+		virtStart  uint32
 		virtEnd    uint32
 		rsrcEnd    int64
 	}
@@ -333,7 +352,8 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr = nil
 	}
 
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader ||
+		int64(pew.src.virtStart) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
 	if pew.rsrcHdr == nil {
@@ -348,6 +368,7 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 
 func (pew *peWriter) fillSectionsInfo() error {
 	pew.src.dataOffset = 0xFFFFFFFF
+	pew.src.virtStart = 0xFFFFFFFF
 	pew.src.rsrcEnd = pew.src.fileSize
 
 	for i := range pew.h.sections {
@@ -370,6 +391,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 	}
 
 	for i := range pew.h.sections {
+		if pew.h.sections[i].VirtualAddress < pew.src.virtStart {
+			pew.src.virtStart = pew.h.sections[i].VirtualAddress
+		}
 		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
 		}
@@ -444,6 +468,10 @@ func (pew *peWriter) updateHeaders() {
 		pew.rsrcHdr = &pew.h.sections[len(pew.h.sections)-1]
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
+		if int64(pew.h.opt.getSizeOfHeaders()) < pew.h.length {
+			// There was a gap between the headers and the first section
+			pew.h.opt.setSizeOfHeaders(pew.roundRaw(uint32(pew.h.length)))
+		}
 		lastSection = pew.rsrcHdr
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
-- 
2.43.0


From f296b53e93c217817403c2db21d24603a45f0b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 28/29] fix: refuse resource sets whose tables or names exceed
 the 16-bit counts of the format

---
 coff.go   |  4 ++++
 errors.go |  2 ++
 rsrc.go   | 33 +++++++++++++++++++++++++++++++++
 winres.go |  3 +++
 4 files changed, 42 insertions(+)

diff --git a/coff.go b/coff.go
index 3259c94..3e5de5a 100644
--- a/coff.go
+++ b/coff.go
@@ -17,6 +17,10 @@ const (
 const sizeOfReloc = 10
 
 func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
+	if err := r.checkLimits(); err != nil {
+		return err
+	}
+
 	file := pe.FileHeader{
 		Machine:          pe.IMAGE_FILE_MACHINE_UNKNOWN,
 		NumberOfSections: 1,
diff --git a/errors.go b/errors.go
index 7f501c9..942409e 100644
--- a/errors.go
+++ b/errors.go
@@ -21,6 +21,8 @@ const (
 	errNotCUR                 = "not a valid CUR file"
 	errUnknownImageFormat     = "unknown image format"
 
+	errTooManyEntries       = "too many resources in a directory table"
+	errNameTooLong          = "string identifier is too long"
 	errInvalidResDir        = "invalid resource directory"
 	errDataEntryOutOfBounds = "data entry out of bounds"
 
diff --git a/rsrc.go b/rsrc.go
index 4896ad3..5cb7ae0 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -53,6 +53,39 @@ func (rs *ResourceSet) write(w io.Writer) ([]int, error) {
 	return append([]int{}, s.relocAddr...), nil
 }
 
+// checkLimits verifies that the set can be written.
+// The format uses 16 bits for lengths of names, and for numbers of names and IDs in each directory table.
+func (rs *ResourceSet) checkLimits() error {
+	s := &state{}
+	rs.order(s)
+	if err := checkTable(s.orderedKeys, s.namesCount); err != nil {
+		return err
+	}
+	for _, te := range rs.types {
+		if err := checkTable(te.orderedKeys, te.namesCount); err != nil {
+			return err
+		}
+		for _, re := range te.resources {
+			if len(re.orderedKeys) > 0xFFFF {
+				return errors.New(errTooManyEntries)
+			}
+		}
+	}
+	return nil
+}
+
+func checkTable(orderedKeys []Identifier, namesCount int) error {
+	if namesCount > 0xFFFF || len(orderedKeys)-namesCount > 0xFFFF {
+		return errors.New(errTooManyEntries)
+	}
+	for _, ident := range orderedKeys[:namesCount] {
+		if len(utf16.Encode([]rune(string(ident.(Name))))) > 0xFFFF {
+			return errors.New(errNameTooLong)
+		}
+	}
+	return nil
+}
+
 // order orders identifiers in the whole resource set.
 func (rs *ResourceSet) order(s *state) {
 	s.orderedKeys = make([]Identifier, 0, len(rs.types))
diff --git a/winres.go b/winres.go
index dea9174..70b0930 100644
--- a/winres.go
+++ b/winres.go
@@ -336,6 +336,9 @@ func (rs *ResourceSet) bytes() ([]byte, []int) {
 //  WithAuthenticode(<how>) // Allows updating the .rsrc section despite the file being signed
 //
 func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOption) error {
+	if err := rs.checkLimits(); err != nil {
+		return err
+	}
 	data, reloc := rs.bytes()
 	options := exeOptions{}
 	for _, o := range opt {
-- 
2.43.0


From da0dc731521ce81c99867f97eb6d4dc508eeb1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 29/29] fix: objects with more than 65,535 resources lost their
 relocations

---
 coff.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/coff.go b/coff.go
index 3e5de5a..5d55624 100644
--- a/coff.go
+++ b/coff.go
@@ -12,6 +12,7 @@ import (
 const (
 	_IMAGE_SCN_MEM_READ             = 0x00000040
 	_IMAGE_SCN_CNT_INITIALIZED_DATA = 0x40000000
+	_IMAGE_SCN_LNK_NRELOC_OVFL      = 0x01000000
 )
 
 const sizeOfReloc = 10
@@ -35,7 +36,15 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 	section.PointerToRawData = uint32(binary.Size(file) + binary.Size(section))
 	section.SizeOfRawData = uint32(r.fullSize())
 	section.PointerToRelocations = section.PointerToRawData + section.SizeOfRawData
-	section.NumberOfRelocations = uint16(r.numDataEntries())
+	numReloc := r.numDataEntries()
+	if numReloc <= 0xFFFF {
+		section.NumberOfRelocations = uint16(numReloc)
+	} else {
+		// The actual count is stored in an additional relocation, before the others
+		numReloc++
+		section.NumberOfRelocations = 0xFFFF
+		section.Characteristics |= _IMAGE_SCN_LNK_NRELOC_OVFL
+	}
 
 	switch arch {
 	case ArchI386:
@@ -49,7 +58,7 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 	default:
 		return errors.New(errUnknownArch)
 	}
-	file.PointerToSymbolTable = section.PointerToRelocations + uint32(section.NumberOfRelocations)*sizeOfReloc
+	file.PointerToSymbolTable = section.PointerToRelocations + uint32(numReloc)*sizeOfReloc
 
 	if err := binary.Write(w, binary.LittleEndian, file); err != nil {
 		return err
@@ -99,6 +108,12 @@ func writeRelocTable(w io.Writer, symbolIndex int, arch Arch, addr []int) error
 		return errors.New(errUnknownArch)
 	}
 
+	if len(addr) > 0xFFFF {
+		err := binary.Write(w, binary.LittleEndian, &pe.Reloc{VirtualAddress: uint32(len(addr) + 1)})
+		if err != nil {
+			return err
+		}
+	}
 	for _, a := range addr {
 		err := binary.Write(w, binary.LittleEndian, &pe.Reloc{
 			VirtualAddress:   uint32(a),
-- 
2.43.0

