From 2b9843bd323c64b6312bd2843e31313fc186e868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 01/53] fix: RLE line width is in bytes, so 16 and 32 bit
 images decode on several CPUs

---
 compress.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/compress.go b/compress.go
index 5482877..0e40b47 100644
--- a/compress.go
+++ b/compress.go
@@ -32,12 +32,8 @@ func (cm CompressionMethod) Decode(dest []byte, r io.Reader, sizeHint int64, rec
 	case CompressionMethodRaw:
 		return io.ReadFull(r, dest)
 	case CompressionMethodRLE:
-		var width int
-		if depth == 1 {
-			width = (rect.Dx() + 7) >> 3
-		} else {
-			width = rect.Dx()
-		}
+		// width is the number of bytes of a line, not of pixels.
+		width := (rect.Dx()*depth + 7) >> 3
 		return decodePackBits(dest, r, width, rect.Dy()*channels, large)
 	case CompressionMethodZIPWithoutPrediction:
 		return decodeZLIB(dest, r, sizeHint)
-- 
2.43.0


From 10ae431242d042005fbafe14f10918b8a8065352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 02/53] fix: a PackBits line cannot run into the next line, so
 broken data is reported whatever the number of CPUs

---
 compress_other.go   | 21 ++++++++++++++++++---
 compress_wasm_js.go | 17 ++++++++++++++++-
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index 9b7e084..8adc5d8 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -50,7 +50,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		n--
 	}
 	if n == 1 {
-		err = decodePackBitsPerLine(dest, buf, lens)
+		err = decodePackBitsLines(dest, buf, lens, width)
 		return
 	}
 
@@ -62,13 +62,13 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	for i := 1; i < n; i++ {
 		go func(index int, dest []byte, buf []byte, lens []int) {
 			defer wg.Done()
-			errs[index] = decodePackBitsPerLine(dest, buf, lens)
+			errs[index] = decodePackBitsLines(dest, buf, lens, width)
 		}(i-1, dest[ofs*width:(ofs+step)*width], buf[offsets[ofs]:offsets[ofs+step]], lens[ofs:ofs+step])
 		ofs += step
 	}
 	go func() {
 		defer wg.Done()
-		errs[n-1] = decodePackBitsPerLine(dest[ofs*width:], buf[offsets[ofs]:], lens[ofs:])
+		errs[n-1] = decodePackBitsLines(dest[ofs*width:], buf[offsets[ofs]:], lens[ofs:], width)
 	}()
 	wg.Wait()
 	for i := 0; i < n; i++ {
@@ -80,6 +80,21 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	return
 }
 
+// decodePackBitsLines decodes lines of width bytes.
+// A line never writes outside of its own part of dest.
+func decodePackBitsLines(dest []byte, buf []byte, lens []int, width int) error {
+	for i, ln := range lens {
+		if len(dest) < width {
+			return errBrokenPackBits
+		}
+		if err := decodePackBitsPerLine(dest[:width], buf[:ln], lens[i:i+1]); err != nil {
+			return err
+		}
+		dest, buf = dest[width:], buf[ln:]
+	}
+	return nil
+}
+
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 	var l int
 	for _, ln := range lens {
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 8009a24..87ae363 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -43,10 +43,25 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	}
 	read += l
 
-	err = decodePackBitsPerLine(dest, buf, lens)
+	err = decodePackBitsLines(dest, buf, lens, width)
 	return
 }
 
+// decodePackBitsLines decodes lines of width bytes.
+// A line never writes outside of its own part of dest.
+func decodePackBitsLines(dest []byte, buf []byte, lens []int, width int) error {
+	for i, ln := range lens {
+		if len(dest) < width {
+			return errBrokenPackBits
+		}
+		if err := decodePackBitsPerLine(dest[:width], buf[:ln], lens[i:i+1]); err != nil {
+			return err
+		}
+		dest, buf = dest[width:], buf[ln:]
+	}
+	return nil
+}
+
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 	var l int
 	for _, ln := range lens {
-- 
2.43.0


From 080e262a538cac4a27c904e8c69ad939a5ae4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 03/53] fix: undo the prediction of 8 and 32 bit images
 compressed by ZIP with prediction

---
 compress.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/compress.go b/compress.go
index 0e40b47..ff58603 100644
--- a/compress.go
+++ b/compress.go
@@ -72,6 +72,12 @@ func decodeZLIB(dest []byte, r io.Reader, length int64) (read int, err error) {
 
 func decodeDelta(buf []byte, width int, depth int) {
 	switch depth {
+	case 8:
+		for ; len(buf) > 0 && width > 0; buf = buf[width:] {
+			for i := 1; i < width; i++ {
+				buf[i] += buf[i-1]
+			}
+		}
 	case 16:
 		var d uint16
 		for i := 0; i < len(buf); {
@@ -83,13 +89,20 @@ func decodeDelta(buf []byte, width int, depth int) {
 			}
 		}
 	case 32:
-		var d uint32
-		for i := 0; i < len(buf); {
-			d = 0
-			for j := 0; j < width; j++ {
-				d += readUint32(buf, i)
-				writeUint32(buf, d, i)
-				i += 4
+		// A line is stored as 4 planes, from the most significant bytes to
+		// the least significant ones, and the prediction is made per byte
+		// through the whole line.
+		line := make([]byte, width<<2)
+		for ; len(buf) > 0 && width > 0; buf = buf[width<<2:] {
+			copy(line, buf)
+			for i := 1; i < len(line); i++ {
+				line[i] += line[i-1]
+			}
+			for i := 0; i < width; i++ {
+				buf[i<<2] = line[i]
+				buf[i<<2+1] = line[i+width]
+				buf[i<<2+2] = line[i+width<<1]
+				buf[i<<2+3] = line[i+width*3]
 			}
 		}
 	}
-- 
2.43.0


From 4bf9ca55e4dd4b1b77c67609ed8e8ec2c38f09fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 04/53] fix: the rectangle of the real layer mask is signed

---
 layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 7771a92..3239748 100644
--- a/layer.go
+++ b/layer.go
@@ -791,8 +791,8 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	read += l
 	readMask += l
 	layer.Mask.RealRect = image.Rect(
-		int(readUint32(b, 4)), int(readUint32(b, 0)),
-		int(readUint32(b, 12)), int(readUint32(b, 8)),
+		int(int32(readUint32(b, 4))), int(int32(readUint32(b, 0))),
+		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
 	return read, nil
-- 
2.43.0


From 874c917ae83d8c5a18520064eba307d53cfbd4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 05/53] fix: skip unknown data at the end of the layer mask
 data

---
 layer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/layer.go b/layer.go
index 3239748..7900bc7 100644
--- a/layer.go
+++ b/layer.go
@@ -795,6 +795,14 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
+	if maskLen-readMask > 0 {
+		// unknown data.
+		l, err = discard(r, maskLen-readMask)
+		read += l
+		if err != nil {
+			return read, err
+		}
+	}
 	return read, nil
 }
 
-- 
2.43.0


From 993d54531efbf714947709fe1b61d23d1a32ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 06/53] fix: read the whole padding, a Read may return less
 than requested

---
 util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index cddf128..63f5699 100644
--- a/util.go
+++ b/util.go
@@ -97,7 +97,7 @@ func readUnicodeString(b []byte) string {
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-		return r.Read(b[:])
+		return io.ReadFull(r, b[:])
 	}
 	return 0, nil
 }
@@ -105,7 +105,7 @@ func adjustAlign2(r io.Reader, l int) (read int, err error) {
 func adjustAlign4(r io.Reader, l int) (read int, err error) {
 	if gap := l & 3; gap > 0 {
 		var b [4]byte
-		return r.Read(b[:4-gap])
+		return io.ReadFull(r, b[:4-gap])
 	}
 	return 0, nil
 }
-- 
2.43.0


From 80a8d9ff8ab286f6e993f55fc202038adf3adebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 07/53] fix: detect truncated or negative data length when
 discarding

---
 util.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 63f5699..48d38c6 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package psd
 
 import (
+	"errors"
 	"io"
 	"io/ioutil"
 	"math"
@@ -114,11 +115,23 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	type discarder interface {
 		Discard(n int) (discarded int, err error)
 	}
+	if skip < 0 {
+		return 0, errors.New("psd: unexpected data length")
+	}
+	if skip == 0 {
+		return 0, nil
+	}
 	switch rr := r.(type) {
 	case discarder:
 		return rr.Discard(skip)
 	case io.Seeker:
-		if _, err = rr.Seek(int64(skip), 1); err != nil {
+		// Seek does not fail even if the destination is beyond the end,
+		// so read the last byte to detect that.
+		if _, err = rr.Seek(int64(skip)-1, 1); err != nil {
+			return 0, err
+		}
+		var b [1]byte
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		return skip, nil
-- 
2.43.0


From 20b7136ec7ca50eaabddefa7fa9179aa517e0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 08/53] fix: decode from a file that has a Seek method but is
 not seekable, such as a pipe

---
 util.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/util.go b/util.go
index 48d38c6..a1b8b6e 100644
--- a/util.go
+++ b/util.go
@@ -127,18 +127,17 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	case io.Seeker:
 		// Seek does not fail even if the destination is beyond the end,
 		// so read the last byte to detect that.
-		if _, err = rr.Seek(int64(skip)-1, 1); err != nil {
-			return 0, err
+		if _, err = rr.Seek(int64(skip)-1, 1); err == nil {
+			var b [1]byte
+			if _, err = io.ReadFull(r, b[:]); err != nil {
+				return 0, err
+			}
+			return skip, nil
 		}
-		var b [1]byte
-		if _, err = io.ReadFull(r, b[:]); err != nil {
-			return 0, err
-		}
-		return skip, nil
-	default:
-		rd, err := io.CopyN(ioutil.Discard, r, int64(skip))
-		return int(rd), err
+		// not seekable actually, for example *os.File of a pipe.
 	}
+	rd, err := io.CopyN(ioutil.Discard, r, int64(skip))
+	return int(rd), err
 }
 
 func readPascalString(r io.Reader) (str string, read int, err error) {
-- 
2.43.0


From 6db601f9ae7bca956abd47bac62fef0f053f91fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 09/53] fix: do not panic on a Unicode layer name that is
 shorter than its declared length

---
 util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util.go b/util.go
index a1b8b6e..7fc8db4 100644
--- a/util.go
+++ b/util.go
@@ -84,7 +84,13 @@ func writeUint32(b []byte, v uint32, offset int) {
 }
 
 func readUnicodeString(b []byte) string {
+	if len(b) < 4 {
+		return ""
+	}
 	ln := readUint32(b, 0)
+	if max := uint32(len(b)-4) >> 1; ln > max {
+		ln = max
+	}
 	if ln == 0 {
 		return ""
 	}
-- 
2.43.0


From ec899dcb5113813ba33b173e50ef10769067d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 10/53] fix: report a section divider setting that is too short
 instead of panicking

---
 layer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layer.go b/layer.go
index 7900bc7..1e9df1d 100644
--- a/layer.go
+++ b/layer.go
@@ -225,6 +225,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType int, err error) {
 	b, ok := l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: section divider setting is too short")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -241,6 +244,9 @@ func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType
 	}
 	b, ok = l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting2]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: section divider setting is too short")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
-- 
2.43.0


From 396681bf36245917bff0c47487052a55f8e14d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 11/53] fix: report a broken color table, unexpected depth or
 missing channels instead of panicking

---
 psd.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/psd.go b/psd.go
index 4e66663..f5dfc97 100644
--- a/psd.go
+++ b/psd.go
@@ -92,10 +92,14 @@ func (cfg *Config) Palette() color.Palette {
 	// 0x0417(1046) | (Photoshop 6.0) Transparency Index.
 	//                2 bytes for the index of transparent color, if any.
 	transparentColorIndex := -1
-	if r, ok := cfg.Res[0x0417]; ok {
+	if r, ok := cfg.Res[0x0417]; ok && len(r.Data) >= 2 {
 		transparentColorIndex = int(readUint16(r.Data, 0))
 	}
-	pal := make(color.Palette, len(cfg.ColorModeData)/3)
+	// the table consists of 3 planes, each has 256 entries.
+	if len(cfg.ColorModeData) < 256*3 {
+		return nil
+	}
+	pal := make(color.Palette, 256)
 	for i := range pal {
 		c := color.NRGBA{
 			cfg.ColorModeData[i],
@@ -115,10 +119,21 @@ func (cfg *Config) makePicker() (picker, error) {
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
-		pk = &pickerPalette{Palette: cfg.Palette()}
+		pal := cfg.Palette()
+		if pal == nil {
+			return nil, errors.New("psd: color table is not found")
+		}
+		if cfg.Depth == 8 {
+			pk = &pickerPalette{Palette: pal}
+		}
 	case ColorModeBitmap:
-		pk = &pickerGray1{}
+		if cfg.Depth == 1 {
+			pk = &pickerGray1{}
+		}
 	default:
+		if cfg.Channels < cfg.ColorMode.Channels() {
+			return nil, errors.New("psd: the number of channels is insufficient for the color mode")
+		}
 		pk = findPicker(cfg.Depth, cfg.ColorMode, cfg.Channels > cfg.ColorMode.Channels() && hasAlphaID0(cfg.Res))
 	}
 	if pk == nil {
-- 
2.43.0


From 28d5cf8ccd4be5ff4ec32d6292b216c019fd35f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 12/53] fix: do not panic on broken alpha identifiers

---
 imageres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imageres.go b/imageres.go
index af5f22a..dd67a57 100644
--- a/imageres.go
+++ b/imageres.go
@@ -108,7 +108,7 @@ func hasAlphaID0(Res map[int]ImageResource) bool {
 	if !ok {
 		return true
 	}
-	for i, ln := 0, len(aid.Data); i < ln; i += 4 {
+	for i, ln := 0, len(aid.Data); i+4 <= ln; i += 4 {
 		if readUint32(aid.Data, i) == 0 {
 			return true
 		}
-- 
2.43.0


From 5d7db563cad2456e18f88f27dea8fe2b7a8fa41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 13/53] fix: do not panic on layers with unsupported color
 mode, extra channels or missing channels

---
 layer.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/layer.go b/layer.go
index 1e9df1d..f0df4da 100644
--- a/layer.go
+++ b/layer.go
@@ -447,9 +447,14 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
 	var l int
 	b := make([]byte, 2)
+	if len(lcis) > 0 && findPicker(cfg.Depth, cfg.ColorMode, false) == nil {
+		return 0, errors.New("psd: layers of color mode " + itoa(int(cfg.ColorMode)) + " depth " + itoa(cfg.Depth) + " is not implemeted")
+	}
 	for i, lci := range lcis {
 		chMap := map[int]Channel{}
-		pickerChs := make([][]byte, cfg.ColorMode.Channels(), 8)
+		colorChs := make([][]byte, cfg.ColorMode.Channels(), 8)
+		var alphaCh []byte
+		hasAlpha := false
 		for _, j := range lci.ChannelData {
 			var readCh int
 			if j.DataLen >= 2 {
@@ -503,13 +508,23 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				Picker: pk,
 			}
 			switch {
-			case j.ChIndex >= 0:
-				pickerChs[j.ChIndex] = data
+			case j.ChIndex >= 0 && j.ChIndex < len(colorChs):
+				colorChs[j.ChIndex] = data
 			case j.ChIndex == -1:
-				pickerChs = append(pickerChs, data)
+				alphaCh, hasAlpha = data, true
+			}
+		}
+		for j, data := range colorChs {
+			if data == nil {
+				// this channel is not in the file.
+				colorChs[j] = make([]byte, (lci.Layer.Rect.Dx()*cfg.Depth+7)>>3*lci.Layer.Rect.Dy())
 			}
 		}
-		pk := findPicker(cfg.Depth, cfg.ColorMode, cfg.ColorMode.Channels() < len(pickerChs))
+		pickerChs := colorChs
+		if hasAlpha {
+			pickerChs = append(pickerChs, alphaCh)
+		}
+		pk := findPicker(cfg.Depth, cfg.ColorMode, hasAlpha)
 		pk.setSource(lci.Layer.Rect, pickerChs...)
 		lci.Layer.Picker = pk
 		lci.Layer.Channel = chMap
-- 
2.43.0


From bf1c011e84b876fde7cd9826a74709cf788efedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 14/53] fix: report a layer whose rectangle is too large
 instead of panicking

---
 layer.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index f0df4da..7aa3d7d 100644
--- a/layer.go
+++ b/layer.go
@@ -480,7 +480,11 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			default:
 				rect = lci.Layer.Rect
 			}
-			data := make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
+			planeLen, err := layerPlaneLen(rect, cfg.Depth)
+			if err != nil {
+				return read, err
+			}
+			data := make([]byte, planeLen)
 			pk := findGrayPicker(cfg.Depth)
 			pk.setSource(rect, data)
 
@@ -517,7 +521,11 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 		for j, data := range colorChs {
 			if data == nil {
 				// this channel is not in the file.
-				colorChs[j] = make([]byte, (lci.Layer.Rect.Dx()*cfg.Depth+7)>>3*lci.Layer.Rect.Dy())
+				planeLen, err := layerPlaneLen(lci.Layer.Rect, cfg.Depth)
+				if err != nil {
+					return read, err
+				}
+				colorChs[j] = make([]byte, planeLen)
 			}
 		}
 		pickerChs := colorChs
@@ -535,6 +543,15 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 	return read, nil
 }
 
+// layerPlaneLen returns bytes of an uncompressed channel of a layer.
+func layerPlaneLen(rect image.Rectangle, depth int) (int, error) {
+	// 300000 is the limit of the large document format.
+	if rect.Dx() > 300000 || rect.Dy() > 300000 {
+		return 0, errors.New("psd: the layer is too large")
+	}
+	return (rect.Dx()*depth + 7) >> 3 * rect.Dy(), nil
+}
+
 func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions) (read int, err error) {
 	// http://www.adobe.com/devnet-apps/photoshop/fileformatashtml/#50577409_22582
 	// Layer mask / adjustment layer data
-- 
2.43.0


From 22bebcb48a7e8ee9448c3695d25bb87ba1891d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 15/53] fix: do not panic or allocate too much memory on a
 broken data length

---
 compress_other.go   |  3 +--
 compress_wasm_js.go |  3 +--
 imageres.go         |  3 +--
 layer.go            |  5 ++---
 psd.go              |  3 +--
 util.go             | 20 ++++++++++++++++++++
 6 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index 8adc5d8..23fab36 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -39,8 +39,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, l, err = readBytes(r, total); err != nil {
 		return
 	}
 	read += l
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 87ae363..f15d32b 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -37,8 +37,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, l, err = readBytes(r, total); err != nil {
 		return
 	}
 	read += l
diff --git a/imageres.go b/imageres.go
index dd67a57..c058880 100644
--- a/imageres.go
+++ b/imageres.go
@@ -76,8 +76,7 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 			return nil, read, err
 		}
 		read += l
-		res.Data = make([]byte, readUint32(b, 0))
-		if l, err = io.ReadFull(r, res.Data); err != nil {
+		if res.Data, l, err = readBytes(r, int(readUint32(b, 0))); err != nil {
 			return nil, read, err
 		}
 		read += l
diff --git a/layer.go b/layer.go
index 7aa3d7d..3831b44 100644
--- a/layer.go
+++ b/layer.go
@@ -895,9 +895,8 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln > 0 {
-				data = make([]byte, ln)
-				if l, err = io.ReadFull(r, data); err != nil {
+			if ln := int(readUint(b, 0, intSize)); ln != 0 {
+				if data, l, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
 				read += l
diff --git a/psd.go b/psd.go
index f5dfc97..3de0068 100644
--- a/psd.go
+++ b/psd.go
@@ -198,8 +198,7 @@ func DecodeConfig(r io.Reader) (cfg Config, read int, err error) {
 	cfg.ColorMode = ColorMode(readUint16(b, 24))
 
 	if ln := readUint32(b, 26); ln > 0 {
-		cfg.ColorModeData = make([]byte, ln)
-		if l, err = io.ReadFull(r, cfg.ColorModeData); err != nil {
+		if cfg.ColorModeData, l, err = readBytes(r, int(ln)); err != nil {
 			return Config{}, read, err
 		}
 		read += l
diff --git a/util.go b/util.go
index 7fc8db4..4b120d7 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package psd
 
 import (
+	"bytes"
 	"errors"
 	"io"
 	"io/ioutil"
@@ -146,6 +147,25 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	return int(rd), err
 }
 
+// readBytes reads n bytes from r.
+// A large buffer grows as the data is read because n may be broken.
+func readBytes(r io.Reader, n int) (b []byte, read int, err error) {
+	if n < 0 {
+		return nil, 0, errors.New("psd: unexpected data length")
+	}
+	if n <= 1<<20 {
+		b = make([]byte, n)
+		read, err = io.ReadFull(r, b)
+		return b, read, err
+	}
+	var buf bytes.Buffer
+	rd, err := io.CopyN(&buf, r, int64(n))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), int(rd), err
+}
+
 func readPascalString(r io.Reader) (str string, read int, err error) {
 	b := make([]byte, 1)
 	if _, err := io.ReadFull(r, b); err != nil {
-- 
2.43.0


From 4fca25bd37b1d0e4932e0b8dcc846da13bc99aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 16/53] fix: report layer groups that are not terminated
 instead of dropping layers

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 3831b44..cfae22e 100644
--- a/layer.go
+++ b/layer.go
@@ -219,6 +219,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 			n = append(n, l)
 		}
 	}
+	if len(stack) != 0 {
+		return nil, errors.New("psd: layer tree structure is broken")
+	}
 	return n, nil
 }
 
-- 
2.43.0


From 25c19cd75fd79088f84e4d807a9080ebc81da8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 17/53] fix: the JavaScript PackBits decoder counts the no-op
 byte

---
 compress.inc.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compress.inc.js b/compress.inc.js
index d44e57a..be6b2ec 100644
--- a/compress.inc.js
+++ b/compress.inc.js
@@ -31,6 +31,7 @@ $global['$github.com/oov/psd$'] = {
                 }
                 if (buf[ofs] == 0x80) {
                     ofs++;
+                    j++;
                     continue;
                 }
                 var l = 256 - buf[ofs++] + 1;
-- 
2.43.0


From 80d8a39dbaad275fe7a020ebd7f488da8d3338db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 18/53] fix: color models return a color of their own type

---
 color/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/color/color.go b/color/color.go
index 95f762e..932d78b 100644
--- a/color/color.go
+++ b/color/color.go
@@ -85,7 +85,7 @@ func (c NGrayA) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayAModel(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -120,7 +120,7 @@ func (c NGrayA32) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayA32Model(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA32); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -283,7 +283,7 @@ func (c NCMYKA80) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nCMYKA80Model(c color.Color) color.Color {
-	if _, ok := c.(NCMYKA); ok {
+	if _, ok := c.(NCMYKA80); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
-- 
2.43.0


From 9446d6e73bc57197229d2750cf9778e55e303011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 19/53] fix: converting a translucent color to NCMYKA keeps the
 color, and a transparent one does not panic

---
 color/color.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/color/color.go b/color/color.go
index 932d78b..c574080 100644
--- a/color/color.go
+++ b/color/color.go
@@ -250,11 +250,16 @@ func nCMYKAModel(c color.Color) color.Color {
 		return c
 	}
 	r, g, b, a := c.RGBA()
+	switch a {
+	case 0:
+		return NCMYKA{0xff, 0xff, 0xff, 0xff, 0}
+	case 0xffff:
+	default:
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	cc, mm, yy, kk := color.RGBToCMYK(uint8(r>>8), uint8(g>>8), uint8(b>>8))
-	cc = uint8((uint32(cc) * 0xffff) / a)
-	mm = uint8((uint32(mm) * 0xffff) / a)
-	yy = uint8((uint32(yy) * 0xffff) / a)
-	kk = uint8((uint32(kk) * 0xffff) / a)
 	return NCMYKA{255 - cc, 255 - mm, 255 - yy, 255 - kk, uint8(a >> 8)}
 }
 
-- 
2.43.0


From bfed8a670adc08e067fbc1b618f04f0893504dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 20/53] fix: converting black or a translucent color to
 NCMYKA80 keeps the color

---
 color/color.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/color/color.go b/color/color.go
index c574080..1b3528a 100644
--- a/color/color.go
+++ b/color/color.go
@@ -295,6 +295,11 @@ func nCMYKA80Model(c color.Color) color.Color {
 	if a == 0 {
 		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, 0}
 	}
+	if a != 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	w := r
 	if w < g {
 		w = g
@@ -303,19 +308,12 @@ func nCMYKA80Model(c color.Color) color.Color {
 		w = b
 	}
 	if w == 0 {
-		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, uint16(a)}
+		return NCMYKA80{0xffff, 0xffff, 0xffff, 0, uint16(a)}
 	}
 	cc := (w - r) * 0xffff / w
 	mm := (w - g) * 0xffff / w
 	yy := (w - b) * 0xffff / w
 	kk := 0xffff - w
-	if a == 0xffff {
-		return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), 0xffff}
-	}
-	cc = (cc * 0xffff) / a
-	mm = (mm * 0xffff) / a
-	yy = (yy * 0xffff) / a
-	kk = (kk * 0xffff) / a
 	return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), uint16(a)}
 }
 
-- 
2.43.0


From f73911b1dd87ec734acd7615e10c2a80efd52033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 21/53] fix: converting a translucent color to NRGBA128 or
 NGrayA64 keeps the color

---
 color/color.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/color/color.go b/color/color.go
index 1b3528a..10b66af 100644
--- a/color/color.go
+++ b/color/color.go
@@ -163,12 +163,11 @@ func nGrayA64Model(c color.Color) color.Color {
 		return NGrayA64{0, 0}
 	}
 	y := (299*r + 587*g + 114*b + 500) / 1000
-	x := float32(toFloat(y, 2.2))
 	if a == 0xffff {
-		return NGrayA64{x, 1}
+		return NGrayA64{float32(toFloat(y, 2.2)), 1}
 	}
-	xa := float32(a) / 0xffff
-	return NGrayA64{x / xa, xa}
+	y = y * 0xffff / a
+	return NGrayA64{float32(toFloat(y, 2.2)), float32(a) / 0xffff}
 }
 
 type NRGBA128 struct {
@@ -200,20 +199,22 @@ func nRGBA128Model(c color.Color) color.Color {
 	}
 	r, g, b, a := c.RGBA()
 	const gamma = 2.2
-	fr := float32(toFloat(r, gamma))
-	fg := float32(toFloat(g, gamma))
-	fb := float32(toFloat(b, gamma))
-	switch {
-	case a >= 0xffff:
-		return NRGBA128{fr, fg, fb, 1}
-	case a == 0:
+	if a == 0 {
 		return NRGBA128{}
 	}
-	fa := 0xffff / float32(a)
-	fr *= fa
-	fg *= fa
-	fb *= fa
-	return NRGBA128{fr, fg, fb, float32(a) / 0xffff}
+	fa := float32(1)
+	if a < 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+		fa = float32(a) / 0xffff
+	}
+	return NRGBA128{
+		float32(toFloat(r, gamma)),
+		float32(toFloat(g, gamma)),
+		float32(toFloat(b, gamma)),
+		fa,
+	}
 }
 
 // NCMYKA represents a non-alpha-premultiplied CMYK color, having 8 bits for each of cyan,
-- 
2.43.0


From a91b415024b74d19c14af748d5231cc75efeab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 22/53] fix: a float sample of negative infinity is black, not
 white

---
 color/color.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/color/color.go b/color/color.go
index 10b66af..fc09289 100644
--- a/color/color.go
+++ b/color/color.go
@@ -6,6 +6,9 @@ import (
 )
 
 func fromFloat(v, gamma float64) uint32 {
+	if !(v > 0) { // includes NaN
+		return 0
+	}
 	x := math.Pow(v, gamma)
 	switch {
 	case x >= 1:
-- 
2.43.0


From 1324cf547adacdc65ac0b4da7c1e0c7bd81ad1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 23/53] fix: the Add blend mode does not overflow and keeps
 translucent colors

---
 blend/genblend.go | 18 +++++++++---------
 blend/zblends.go  | 30 +++++++++++++++---------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 278ee7a..2953378 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -595,9 +595,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetNRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2+db*a3)) / uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2+dg*a3)) / uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2+dr*a3)) / uint64(a)) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / a) >> 8)
@@ -608,9 +608,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / 0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / 0xffff) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2+db*a3)) / uint64(a)) * a / 0xffff >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2+dg*a3)) / uint64(a)) * a / 0xffff >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2+dr*a3)) / uint64(a)) * a / 0xffff >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
@@ -713,9 +713,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 {{.Code.To16}}
 {{end}}
 {{if .OverMax}}
-			out.R = uint16(clip6416(uint64(sr*a2 + dr*a3)/0xffff + uint64(r)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2 + dg*a3)/0xffff + uint64(g)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2 + db*a3)/0xffff + uint64(b)*uint64(a1) / uint64(a)) * a / 0xffff)
+			out.R = uint16(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2+dr*a3)) / uint64(a)) * a / 0xffff)
+			out.G = uint16(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2+dg*a3)) / uint64(a)) * a / 0xffff)
+			out.B = uint16(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2+db*a3)) / uint64(a)) * a / 0xffff)
 			out.A = uint16(a)
 {{else}}
 			out.R = uint16((r*a1 + sr*a2 + dr*a3) / 0xffff)
diff --git a/blend/zblends.go b/blend/zblends.go
index 888a303..d5b606c 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -5484,9 +5484,9 @@ var drawAddNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5543,9 +5543,9 @@ var drawAddRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5602,9 +5602,9 @@ var drawAddNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) * a / 0xffff >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) * a / 0xffff >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) * a / 0xffff >> 8)
 
 		}
 		d0 += dyDelta
@@ -5671,9 +5671,9 @@ var drawAddRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0,
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) * a / 0xffff >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) * a / 0xffff >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) * a / 0xffff >> 8)
 
 		}
 		d0 += dyDelta
@@ -5733,9 +5733,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 
 			b = sb + db
 
-			out.R = uint16(clip6416(uint64(sr*a2+dr*a3)/0xffff+uint64(r)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2+dg*a3)/0xffff+uint64(g)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2+db*a3)/0xffff+uint64(b)*uint64(a1)/uint64(a)) * a / 0xffff)
+			out.R = uint16(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) * a / 0xffff)
+			out.G = uint16(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) * a / 0xffff)
+			out.B = uint16(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) * a / 0xffff)
 			out.A = uint16(a)
 
 			dst.Set(x, y, &out)
-- 
2.43.0


From f58f9b71f37511eeb6de3be56f52afae880de491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 24/53] fix: the SoftLight blend mode does not lose precision
 on dark colors

---
 blend/genblend.go |  4 ++--
 blend/zblends.go  | 36 ++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 2953378..0163d34 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -215,7 +215,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest * 32897 >> 23) * (maxValue - dest) * 32897 >> 23);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) * 32897 >> 23) * int32(dest) + maxValue*4) * int32(dest) * 32897 >> 23);
+					tmp = uint32(((int32(dest)<<4 - maxValue*12) * int32(dest) / maxValue + maxValue*4) * int32(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
@@ -227,7 +227,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest / maxValue) * (maxValue - dest) / maxValue);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) / maxValue) * int32(dest) + maxValue*4) * int32(dest) / maxValue);
+					tmp = uint32((int64(int32(dest)<<4 - maxValue*12) * int64(dest) / maxValue + maxValue*4) * int64(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
diff --git a/blend/zblends.go b/blend/zblends.go
index d5b606c..6229ec4 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -6378,7 +6378,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xff - (sr << 1)) * dr * 32897 >> 23) * (0xff - dr) * 32897 >> 23)
 			} else {
 				if dr < 0x40 {
-					tmp = uint32((((int32(dr)<<4-0xff*12)*32897>>23)*int32(dr) + 0xff*4) * int32(dr) * 32897 >> 23)
+					tmp = uint32(((int32(dr)<<4-0xff*12)*int32(dr)/0xff + 0xff*4) * int32(dr) / 0xff)
 				} else {
 					tmp = sqrt(dr, 0xff)
 				}
@@ -6389,7 +6389,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xff - (sg << 1)) * dg * 32897 >> 23) * (0xff - dg) * 32897 >> 23)
 			} else {
 				if dg < 0x40 {
-					tmp = uint32((((int32(dg)<<4-0xff*12)*32897>>23)*int32(dg) + 0xff*4) * int32(dg) * 32897 >> 23)
+					tmp = uint32(((int32(dg)<<4-0xff*12)*int32(dg)/0xff + 0xff*4) * int32(dg) / 0xff)
 				} else {
 					tmp = sqrt(dg, 0xff)
 				}
@@ -6400,7 +6400,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xff - (sb << 1)) * db * 32897 >> 23) * (0xff - db) * 32897 >> 23)
 			} else {
 				if db < 0x40 {
-					tmp = uint32((((int32(db)<<4-0xff*12)*32897>>23)*int32(db) + 0xff*4) * int32(db) * 32897 >> 23)
+					tmp = uint32(((int32(db)<<4-0xff*12)*int32(db)/0xff + 0xff*4) * int32(db) / 0xff)
 				} else {
 					tmp = sqrt(db, 0xff)
 				}
@@ -6450,7 +6450,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32((int64(int32(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6461,7 +6461,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32((int64(int32(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6472,7 +6472,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32((int64(int32(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6536,7 +6536,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32((int64(int32(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6547,7 +6547,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32((int64(int32(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6558,7 +6558,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32((int64(int32(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6622,7 +6622,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32((int64(int32(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6633,7 +6633,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32((int64(int32(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6644,7 +6644,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32((int64(int32(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6718,7 +6718,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32((int64(int32(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6729,7 +6729,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32((int64(int32(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6740,7 +6740,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32((int64(int32(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6808,7 +6808,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32((int64(int32(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6819,7 +6819,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32((int64(int32(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6830,7 +6830,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32((int64(int32(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
-- 
2.43.0


From 93f5232a910ea3f05aad38d472285d0d60fd0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 25/53] fix: drawing a transparent pixel leaves the destination
 unchanged in the generic path, too

---
 blend/genblend.go |   7 +-
 blend/zblends.go  | 189 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 140 insertions(+), 56 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 0163d34..c99d8da 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -668,9 +668,12 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
diff --git a/blend/zblends.go b/blend/zblends.go
index 6229ec4..c779c1d 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -412,9 +412,12 @@ var drawNormalFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -907,9 +910,12 @@ var drawDarkenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1354,9 +1360,12 @@ var drawMultiplyFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1879,9 +1888,12 @@ var drawColorBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2407,9 +2419,12 @@ var drawLinearBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2877,9 +2892,12 @@ var drawDarkerColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3376,9 +3394,12 @@ var drawLightenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3823,9 +3844,12 @@ var drawScreenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4348,9 +4372,12 @@ var drawColorDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4801,9 +4828,12 @@ var drawLinearDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5256,9 +5286,12 @@ var drawLighterColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5695,9 +5728,12 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6190,9 +6226,12 @@ var drawOverlayFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6772,9 +6811,12 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7309,9 +7351,12 @@ var drawHardLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7819,9 +7864,12 @@ var drawLinearLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -8476,9 +8524,12 @@ var drawVividLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9163,9 +9214,12 @@ var drawPinLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9985,9 +10039,12 @@ var drawHardMixFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10549,9 +10606,12 @@ var drawDifferenceFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10996,9 +11056,12 @@ var drawExclusionFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -11491,9 +11554,12 @@ var drawSubtractFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12028,9 +12094,12 @@ var drawDivideFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12466,9 +12535,12 @@ var drawHueFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12883,9 +12955,12 @@ var drawSaturationFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13295,9 +13370,12 @@ var drawColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, sr
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13706,9 +13784,12 @@ var drawLuminosityFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
-			dr, dg, db, da := dst.At(x, y).RGBA()
-
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
+
+			dr, dg, db, da := dst.At(x, y).RGBA()
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
-- 
2.43.0


From 7b6e8fda59a6724bd1b549d8ed5f740e5c656935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 26/53] fix: drawing an image onto itself does not depend on
 the number of CPUs

---
 blend/draw.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/blend/draw.go b/blend/draw.go
index af44cdf..d46099f 100644
--- a/blend/draw.go
+++ b/blend/draw.go
@@ -30,6 +30,11 @@ type uniformDrawer interface {
 	drawUniformToNRGBAUniform(dst *image.NRGBA, r image.Rectangle, src *image.Uniform, sp image.Point, mask *image.Uniform)
 }
 
+// sameBuffer reports whether a and b are parts of the same array.
+func sameBuffer(a, b []byte) bool {
+	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
+}
+
 type drawFunc func(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int)
 
 func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
@@ -37,7 +42,8 @@ func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int
 	for n > 1 && n<<1 > y {
 		n--
 	}
-	if n == 1 {
+	// Rows have to be processed in order when dest and src are parts of the same image.
+	if n == 1 || sameBuffer(dest, src) {
 		f(dest, src, alpha, d0, s0, y, sx0, sx1, sxDelta, syDelta, dx0, dx1, dxDelta, dyDelta)
 		return
 	}
@@ -102,7 +108,8 @@ func (f drawFallbackFunc) Parallel(dst draw.Image, pX int, pY int, src image.Ima
 	for n > 1 && n<<1 > y {
 		n--
 	}
-	if n == 1 {
+	// Rows have to be processed in order when dst and src are the same image.
+	if n == 1 || image.Image(dst) == src {
 		f(dst, pX, pY, src, spX, spY, mask, mpX, mpY, endX, endY, dx, dy)
 		return
 	}
-- 
2.43.0


From 8a4df3be6ae82ec1397b4745ed8145e7f49f3440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 27/53] fix: psdexporter does not panic on an empty layer

---
 psdexporter/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdexporter/main.go b/psdexporter/main.go
index 41a3694..edc28ff 100644
--- a/psdexporter/main.go
+++ b/psdexporter/main.go
@@ -18,7 +18,7 @@ func processLayer(filename string, layerName string, l *psd.Layer) error {
 			}
 		}
 	}
-	if !l.HasImage() {
+	if !l.HasImage() || l.Rect.Empty() {
 		return nil
 	}
 	fmt.Printf("%s -> %s.png\n", layerName, filename)
-- 
2.43.0


From 8ec02149a43a83e8e246489eb2ed9be4647a9fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 28/53] fix: lengths that do not fit in int are rejected on
 32-bit platforms

---
 compress_other.go   |  7 +++++-
 compress_wasm_js.go |  7 +++++-
 imageres.go         | 11 +++++++--
 layer.go            | 58 +++++++++++++++++++++++++++++++++++++--------
 psd.go              |  9 +++++--
 util.go             | 11 +++++++++
 6 files changed, 87 insertions(+), 16 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index 23fab36..c054a8b 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -23,10 +23,15 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	ofs := 0
 	if large {
 		for i := range lens {
-			l = int(readUint32(buf, ofs))
+			if l, err = readLen(buf, ofs, 4); err != nil {
+				return
+			}
 			lens[i] = l
 			offsets[i] = total
 			total += l
+			if total < 0 {
+				return read, errBrokenPackBits
+			}
 			ofs += 4
 		}
 	} else {
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index f15d32b..e239681 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -21,10 +21,15 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	ofs := 0
 	if large {
 		for i := range lens {
-			l = int(readUint32(buf, ofs))
+			if l, err = readLen(buf, ofs, 4); err != nil {
+				return
+			}
 			lens[i] = l
 			offsets[i] = total
 			total += l
+			if total < 0 {
+				return read, errBrokenPackBits
+			}
 			ofs += 4
 		}
 	} else {
diff --git a/imageres.go b/imageres.go
index c058880..e90afe6 100644
--- a/imageres.go
+++ b/imageres.go
@@ -23,7 +23,10 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 		return nil, 0, err
 	}
 	read += l
-	imageResourceLen := int(readUint32(b, 0))
+	imageResourceLen, err := readLen(b, 0, 4)
+	if err != nil {
+		return nil, read, err
+	}
 	if imageResourceLen == 0 {
 		return map[int]ImageResource{}, read, nil
 	}
@@ -76,7 +79,11 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 			return nil, read, err
 		}
 		read += l
-		if res.Data, l, err = readBytes(r, int(readUint32(b, 0))); err != nil {
+		dataLen, err := readLen(b, 0, 4)
+		if err != nil {
+			return nil, read, err
+		}
+		if res.Data, l, err = readBytes(r, dataLen); err != nil {
 			return nil, read, err
 		}
 		read += l
diff --git a/layer.go b/layer.go
index cfae22e..1bdeab4 100644
--- a/layer.go
+++ b/layer.go
@@ -119,7 +119,10 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 		return nil, 0, err
 	}
 	read += l
-	layerAndMaskInfoLen := int(readUint(b, 0, intSize))
+	layerAndMaskInfoLen, err := readLen(b, 0, intSize)
+	if err != nil {
+		return nil, read, err
+	}
 	if Debug != nil {
 		Debug.Println("  layerAndMaskInfoLen:", layerAndMaskInfoLen)
 		reportReaderPosition("  file offset: 0x%08x", r)
@@ -143,7 +146,11 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 			return nil, read, err
 		}
 		read += l
-		if globalLayerMaskInfoLen := int(readUint32(b, 0)); globalLayerMaskInfoLen > 0 {
+		globalLayerMaskInfoLen, err := readLen(b, 0, 4)
+		if err != nil {
+			return nil, read, err
+		}
+		if globalLayerMaskInfoLen > 0 {
 			if Debug != nil {
 				Debug.Println("  globalLayerMaskInfoLen:", globalLayerMaskInfoLen)
 				reportReaderPosition("    file offset: 0x%08x", r)
@@ -288,7 +295,10 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 		return nil, 0, err
 	}
 	read += l
-	layerInfoLen := int(readUint(b, 0, intSize))
+	layerInfoLen, err := readLen(b, 0, intSize)
+	if err != nil {
+		return nil, read, err
+	}
 	if Debug != nil {
 		Debug.Println("  layerInfoLen:", layerInfoLen)
 	}
@@ -346,9 +356,13 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 				return nil, read, err
 			}
 			read += l
+			dataLen, err := readLen(b, 2, intSize)
+			if err != nil {
+				return nil, read, err
+			}
 			lci.ChannelData[j] = channelData{
 				ChIndex: int(int16(readUint16(b, 0))),
-				DataLen: int(readUint(b, 2, intSize)),
+				DataLen: dataLen,
 			}
 		}
 		lcis[i] = lci
@@ -546,13 +560,23 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 	return read, nil
 }
 
+// planeLen returns bytes of an uncompressed channel.
+// `+7` and `>>3` is the padding for the 1bit depth color mode.
+func planeLen(rect image.Rectangle, depth int) (int, error) {
+	n := (int64(rect.Dx())*int64(depth) + 7) >> 3 * int64(rect.Dy())
+	if int64(int(n)) != n {
+		return 0, errors.New("psd: the image is too large")
+	}
+	return int(n), nil
+}
+
 // layerPlaneLen returns bytes of an uncompressed channel of a layer.
 func layerPlaneLen(rect image.Rectangle, depth int) (int, error) {
 	// 300000 is the limit of the large document format.
-	if rect.Dx() > 300000 || rect.Dy() > 300000 {
+	if int64(rect.Max.X)-int64(rect.Min.X) > 300000 || int64(rect.Max.Y)-int64(rect.Min.Y) > 300000 {
 		return 0, errors.New("psd: the layer is too large")
 	}
-	return (rect.Dx()*depth + 7) >> 3 * rect.Dy(), nil
+	return planeLen(rect, depth)
 }
 
 func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions) (read int, err error) {
@@ -567,7 +591,10 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 		return 0, err
 	}
 	read += l
-	extraDataLen := int(readUint32(b, 0))
+	extraDataLen, err := readLen(b, 0, 4)
+	if err != nil {
+		return read, err
+	}
 	if Debug != nil {
 		Debug.Println("  extraDataLen:", extraDataLen)
 	}
@@ -587,7 +614,11 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 		return read, err
 	}
 	read += l
-	if blendingRangesLen := int(readUint32(b, 0)); blendingRangesLen > 0 {
+	blendingRangesLen, err := readLen(b, 0, 4)
+	if err != nil {
+		return read, err
+	}
+	if blendingRangesLen > 0 {
 		if Debug != nil {
 			Debug.Println("  layer blending ranges data skipped:", blendingRangesLen)
 		}
@@ -641,7 +672,10 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	}
 	read += l
 
-	maskLen := int(readUint32(b, 0))
+	maskLen, err := readLen(b, 0, 4)
+	if err != nil {
+		return read, err
+	}
 	if maskLen == 0 {
 		// no layer mask
 		return read, nil
@@ -898,7 +932,11 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln != 0 {
+			ln, err := readLen(b, 0, intSize)
+			if err != nil {
+				return nil, nil, read, err
+			}
+			if ln != 0 {
 				if data, l, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
diff --git a/psd.go b/psd.go
index 3de0068..3668038 100644
--- a/psd.go
+++ b/psd.go
@@ -252,8 +252,13 @@ func Decode(r io.Reader, o *DecodeOptions) (psd *PSD, read int, err error) {
 
 	if !o.SkipMergedImage {
 		// allocate image buffer.
-		// `+7` and `>>3` is the padding for the 1bit depth color mode.
-		plane := (psd.Config.Rect.Dx()*psd.Config.Depth + 7) >> 3 * psd.Config.Rect.Dy()
+		plane, err := planeLen(psd.Config.Rect, psd.Config.Depth)
+		if err != nil {
+			return nil, read, err
+		}
+		if psd.Config.Channels > int(^uint(0)>>1)/plane {
+			return nil, read, errors.New("psd: the image is too large")
+		}
 		psd.Data = make([]byte, plane*psd.Config.Channels)
 		chs := make([][]byte, psd.Config.Channels)
 		psd.Channel = make(map[int]Channel)
diff --git a/util.go b/util.go
index 4b120d7..03656c7 100644
--- a/util.go
+++ b/util.go
@@ -69,6 +69,17 @@ func readUint(b []byte, offset int, size int) uint64 {
 	panic("psd: unexpected size")
 }
 
+// readLen reads a length field.
+// It fails if int cannot hold the length, and leaves room for the size of the field itself.
+func readLen(b []byte, offset int, size int) (int, error) {
+	const maxLen = uint64(^uint(0)>>1) - 16
+	v := readUint(b, offset, size)
+	if v > maxLen {
+		return 0, errors.New("psd: unexpected data length")
+	}
+	return int(v), nil
+}
+
 func readFloat32(b []byte, offset int) float32 {
 	return math.Float32frombits(readUint32(b, offset))
 }
-- 
2.43.0


From 52c3822e113388b1d65e4f2fbab2ec64f79bca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 29/53] fix: Copy keeps translucent colors of an NRGBA image
 exactly

---
 blend/genporterduff.go | 10 ++++++++++
 blend/zporterduffs.go  |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/blend/genporterduff.go b/blend/genporterduff.go
index 93abc7e..00b034a 100644
--- a/blend/genporterduff.go
+++ b/blend/genporterduff.go
@@ -442,6 +442,16 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 	}
 {{end}}
 {{template "drawMain1" .}}
+{{if eq .Name "Copy"}}
+			if alpha == 0xffff && sa != 0 {
+				// converting to premultiplied colors and back is not lossless.
+				dpix[j+3] = uint8(sa >> 8)
+				dpix[j+2] = uint8(sb >> 8)
+				dpix[j+1] = uint8(sg >> 8)
+				dpix[j+0] = uint8(sr >> 8)
+				continue
+			}
+{{end}}
 {{if and (ne .SrcRead "skip") (ne .SrcRead "alpha")}}
 	{{template "drawMain1_SrcNRGBAToRGBA" .}}
 {{end}}
diff --git a/blend/zporterduffs.go b/blend/zporterduffs.go
index ecace5e..4bc1083 100644
--- a/blend/zporterduffs.go
+++ b/blend/zporterduffs.go
@@ -597,6 +597,15 @@ var drawCopyNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 			sg := uint32(spix[i+1]) * 0x0101
 			sr := uint32(spix[i]) * 0x0101
 
+			if alpha == 0xffff && sa != 0 {
+				// converting to premultiplied colors and back is not lossless.
+				dpix[j+3] = uint8(sa >> 8)
+				dpix[j+2] = uint8(sb >> 8)
+				dpix[j+1] = uint8(sg >> 8)
+				dpix[j+0] = uint8(sr >> 8)
+				continue
+			}
+
 			if sa == 0x0000 {
 				sr = 0
 				sg = 0
-- 
2.43.0


From b6b0d5c14746bcb1a5f64d9249a77c7fbe9e618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:47 +0000
Subject: [PATCH 30/53] fix: top level layers of a composite.Tree know their
 parent, so SetDirtyByLayer reaches the root cache

---
 composite/builder.go |  3 ++-
 composite/layer.go   | 15 ++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 3b4b6bb..7d8d257 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -51,8 +51,9 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
 	b.Rect = b.Rect.Union(psdl.Rect)
+	l.Children = make([]Layer, len(psdl.Layer))
 	for i := range psdl.Layer {
-		l.Children = append(l.Children, Layer{Parent: l})
+		l.Children[i].Parent = l
 		b.buildLayer(&l.Children[i], &psdl.Layer[i])
 	}
 }
diff --git a/composite/layer.go b/composite/layer.go
index f8a5b2a..6b04e25 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -225,12 +225,6 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		BlendMode:  psd.BlendModeNormal,
 		Opacity:    255,
 	}
-	for i := range img.Layer {
-		root.Children = append(root.Children, Layer{})
-		b.buildLayer(&root.Children[i], &img.Layer[i])
-	}
-	b.registerClippingGroup(root.Children)
-
 	r := &Tree{
 		Renderer: &Renderer{
 			cache: map[int]*cache{},
@@ -239,10 +233,17 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		layerImage: layerImages,
 
 		CanvasRect: img.Config.Rect,
-		Rect:       b.Rect.Intersect(img.Config.Rect),
 
 		Root: root,
 	}
+	// The layers are built in their final place because they point at each other.
+	r.Root.Children = make([]Layer, len(img.Layer))
+	for i := range img.Layer {
+		r.Root.Children[i].Parent = &r.Root
+		b.buildLayer(&r.Root.Children[i], &img.Layer[i])
+	}
+	b.registerClippingGroup(r.Root.Children)
+	r.Rect = b.Rect.Intersect(img.Config.Rect)
 
 	r.Renderer.pool.New = r.Renderer.allocate
 	r.Renderer.tree = r
-- 
2.43.0


From dc105a29ebde2ec6192be366d957cef43970424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 31/53] fix: SetDirtyByLayer reaches nested pass-through groups
 when a group is no longer pass-through

---
 composite/renderer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composite/renderer.go b/composite/renderer.go
index 2dd8aab..f0fb1b1 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -166,6 +166,8 @@ func (r *Renderer) setDirtyByLayerRecursive(l *Layer, areaMap []image.Point) {
 
 func (r *Renderer) setDirtyByLayer(l *Layer) {
 	areaMap := r.buildAreaMap(l)
+	// l may have been a pass-through group before the change.
+	r.setDirtyByLayerPassThrough(l, areaMap)
 	r.setDirtyByLayerRecursive(l, areaMap)
 }
 
-- 
2.43.0


From 2dd43525fbb611763a48aa8d2a312ce66b385099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:55 +0000
Subject: [PATCH 32/53] fix: the compositor does not panic on a blend mode it
 does not know

---
 composite/builder.go | 3 +++
 composite/draw.go    | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/composite/builder.go b/composite/builder.go
index 7d8d257..183ce1d 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -33,6 +33,9 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 
 	if psdl.Folder() {
 		l.BlendMode = psdl.SectionDividerSetting.BlendMode
+		if l.BlendMode == "" {
+			l.BlendMode = psdl.BlendMode
+		}
 	} else {
 		if psdl.BlendMode == psd.BlendModePassThrough {
 			log.Printf("NOTICE: In '%s' layer, blend mode 'pass-through' which is unsupported mode in image layer has been replaced by 'normal'.", l.Name)
diff --git a/composite/draw.go b/composite/draw.go
index eaae508..c32a179 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -40,7 +40,11 @@ var blendModes = map[psd.BlendMode]blend.Drawer{
 }
 
 func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image.Point, opacity int, bm psd.BlendMode) {
-	blendModes[bm].DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
+	d, ok := blendModes[bm]
+	if !ok {
+		d = blend.Normal
+	}
+	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
 func removeAlpha(b *image.NRGBA) {
-- 
2.43.0


From 327d38b4db0b7a8500e0d678a1a30a3817d3c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 33/53] fix: the compositor does not modify layers while the
 decoder copies them, and a mask of the default color only is not ignored

---
 composite/builder.go | 3 ++-
 composite/layer.go   | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 183ce1d..5c9dc05 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -12,6 +12,7 @@ import (
 
 type builder struct {
 	Img                       *psd.PSD
+	LayerImage                map[int]layerImage
 	Rect                      image.Rectangle
 	LayerNameEncodingDetector func([]byte) encoding.Encoding
 	LayerNameEncoding         encoding.Encoding
@@ -53,7 +54,7 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskDefaultColor = psdl.Mask.DefaultColor
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
-	b.Rect = b.Rect.Union(psdl.Rect)
+	b.Rect = b.Rect.Union(b.LayerImage[psdl.SeqID].Canvas.Rect())
 	l.Children = make([]Layer, len(psdl.Layer))
 	for i := range psdl.Layer {
 		l.Children[i].Parent = l
diff --git a/composite/layer.go b/composite/layer.go
index 6b04e25..65cac00 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -214,7 +214,8 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	}
 
 	b := &builder{
-		Img: img,
+		Img:                       img,
+		LayerImage:                layerImages,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
 	root := Layer{
@@ -300,7 +301,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 				return
 			}
 			ld.Canvas = ti
-			l.Rect = ti.Rect()
 		}
 		if !l.Mask.Rect.Empty() {
 			if a, ok := l.Channel[-2]; ok {
@@ -309,7 +309,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 					return
 				}
 				ld.Mask = m
-				l.Mask.Rect = m.Rect()
 			}
 		}
 
-- 
2.43.0


From 9b975583d43ab44da83036171acbd952723ae77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:27 +0000
Subject: [PATCH 34/53] fix: the compositor does not ignore a mask that has an
 empty rectangle

---
 composite/builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/composite/builder.go b/composite/builder.go
index 5c9dc05..3107426 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -52,7 +52,9 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.FolderOpen = psdl.FolderIsOpen()
 
 	l.MaskDefaultColor = psdl.Mask.DefaultColor
-	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
+	// The rectangle is empty if the whole mask has the default color.
+	_, hasMask := psdl.Channel[-2]
+	l.MaskEnabled = psdl.Mask.Enabled() && (hasMask || !psdl.Mask.Rect.Empty())
 
 	b.Rect = b.Rect.Union(b.LayerImage[psdl.SeqID].Canvas.Rect())
 	l.Children = make([]Layer, len(psdl.Layer))
-- 
2.43.0


From 47e38e5d9a5f0f1cc8a02a36e9be9fe7d7132439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:32 +0000
Subject: [PATCH 35/53] fix: the compositor reports a depth it does not support
 instead of rendering garbage

---
 composite/layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite/layer.go b/composite/layer.go
index 65cac00..32c534f 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -271,6 +271,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			if c.ColorMode != psd.ColorModeRGB {
 				return errors.New("Unsupported color mode")
 			}
+			if c.Depth != 8 {
+				return errors.New("Unsupported depth")
+			}
 			return nil
 		},
 		LayerImageLoaded: func(l *psd.Layer, index int, total int) { ch <- l },
-- 
2.43.0


From 113819655ef28aedb955a953b8ef91724c1be4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 36/53] fix: the compositor does not panic on a layer that
 lacks a color channel

---
 composite/layer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/composite/layer.go b/composite/layer.go
index 32c534f..d879e56 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -289,12 +289,20 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	return layerImages, img, nil
 }
 
+// channelData returns the plane of the channel, which is black if the layer does not have it.
+func channelData(l *psd.Layer, id int) []byte {
+	if ch, ok := l.Channel[id]; ok {
+		return ch.Data
+	}
+	return make([]byte, l.Rect.Dx()*l.Rect.Dy())
+}
+
 func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
 		var ld layerImage
 		if l.HasImage() && !l.Rect.Empty() {
-			r, g, b := l.Channel[0].Data, l.Channel[1].Data, l.Channel[2].Data
+			r, g, b := channelData(l, 0), channelData(l, 1), channelData(l, 2)
 			var a []byte
 			if ach, ok := l.Channel[-1]; ok {
 				a = ach.Data
-- 
2.43.0


From 1e42443aab627d658847be06bd5942897751c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 37/53] fix: the compositor does not drop the part of an image
 that has negative coordinates

---
 composite/layerimage.go | 25 +++++++++++++++++--------
 composite/renderer.go   |  4 ++--
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 0a44f79..8381cc6 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -17,6 +17,15 @@ type layerImage struct {
 	Mask   tiledMask
 }
 
+// floorToTile returns the start of the tile that has v, which may be negative.
+func floorToTile(v int, tileSize int) int {
+	n := v / tileSize
+	if n*tileSize > v {
+		n--
+	}
+	return n * tileSize
+}
+
 type tiledImage map[image.Point]draw.Image
 
 func (t tiledImage) Get(tileSize int, pt image.Point) (draw.Image, bool) {
@@ -43,8 +52,8 @@ func (t tiledImage) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := floorToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := floorToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -231,8 +240,8 @@ func newScaledTiledImage(ctx context.Context, tileSize int, rect image.Rectangle
 }
 
 func newTiledImage(ctx context.Context, tileSize int, rect image.Rectangle, r, g, b, a []byte, deltaX int) (tiledImage, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := floorToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := floorToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -356,8 +365,8 @@ func (t tiledMask) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := floorToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := floorToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -425,8 +434,8 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 }
 
 func newTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int) (tiledMask, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := floorToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := floorToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
diff --git a/composite/renderer.go b/composite/renderer.go
index f0fb1b1..9898d9e 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -237,8 +237,8 @@ func (r *Renderer) render(ctx context.Context, dest *image.NRGBA, diffOnly bool)
 		Map: map[int]*[]image.Point{},
 	}
 
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := floorToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := floorToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
-- 
2.43.0


From 08d6750755986e03de3f5a989b865349d61f7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 38/53] fix: clipping to a pass-through group uses the shape of
 the group

---
 composite/renderer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/composite/renderer.go b/composite/renderer.go
index 9898d9e..5f1e1f4 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -355,6 +355,11 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 		return r.updateCache(drDefered, l, pt, buf, c, clst)
 	}
 
+	if len(l.Clip) > 0 && blendMode == psd.BlendModePassThrough {
+		// the base of a clipping group has to be isolated to know its shape.
+		blendMode = psd.BlendModeNormal
+	}
+
 	ld := r.tree.layerImage[l.SeqID]
 	ldCanvas, ok := ld.Canvas[pt]
 	if len(l.Children) == 0 && !ok {
@@ -439,11 +444,7 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 			r.drawLayer(pt, clipBuf, clst, cl, cl.Opacity, cl.BlendMode, true)
 		}
 		blend.DestIn.Draw(clipBuf, buf.Rect, buf, pt)
-		if blendMode == psd.BlendModePassThrough {
-			blend.Copy.Draw(b, clipBuf.Rect, clipBuf, pt)
-		} else {
-			drawWithOpacity(b, clipBuf.Rect, clipBuf, pt, opacity, blendMode)
-		}
+		drawWithOpacity(b, clipBuf.Rect, clipBuf, pt, opacity, blendMode)
 		clipBuf.Pix, buf.Pix = buf.Pix, clipBuf.Pix
 		return r.updateCache(drDrew, l, pt, buf, c, clst)
 	}
-- 
2.43.0


From e7da7632cb15a6408a577bdb857b579cfa8c85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:31 +0000
Subject: [PATCH 39/53] fix: the mask of a pass-through group does not change
 what is below the group

---
 composite/draw.go     | 25 +++++++++++++++++++++++++
 composite/renderer.go |  7 +++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/composite/draw.go b/composite/draw.go
index c32a179..ebf037e 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -47,6 +47,31 @@ func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image
 	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
+// mixByMask returns b to buf where the mask hides buf.
+// The values of the mask are inverted if defaultColor is 255.
+func mixByMask(buf *image.NRGBA, b *image.NRGBA, mask *image.Alpha, defaultColor int) {
+	d, s := buf.Pix, b.Pix
+	for i := 0; i < len(d); i += 4 {
+		var m uint32
+		if mask != nil {
+			m = uint32(mask.Pix[i>>2])
+		}
+		if defaultColor == 255 {
+			m = 255 - m
+		}
+		wd, ws := uint32(d[i+3])*m, uint32(s[i+3])*(255-m)
+		w := wd + ws
+		if w == 0 {
+			d[i+0], d[i+1], d[i+2], d[i+3] = 0, 0, 0, 0
+			continue
+		}
+		for j := i; j < i+3; j++ {
+			d[j] = uint8((uint32(d[j])*wd + uint32(s[j])*ws + w>>1) / w)
+		}
+		d[i+3] = uint8((w + 127) / 255)
+	}
+}
+
 func removeAlpha(b *image.NRGBA) {
 	d := b.Pix
 	ln := len(d)
diff --git a/composite/renderer.go b/composite/renderer.go
index 5f1e1f4..9df7339 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -408,7 +408,9 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 		blend.Copy.Draw(buf, ldCanvas.Bounds(), ldCanvas, pt)
 	}
 
-	if l.MaskEnabled {
+	if l.MaskEnabled && blendMode == psd.BlendModePassThrough {
+		mixByMask(buf, b, ld.Mask[pt], l.MaskDefaultColor)
+	} else if l.MaskEnabled {
 		if ldMask, ok := ld.Mask[pt]; ok {
 			if l.MaskDefaultColor != 255 {
 				blend.DestIn.Draw(buf, buf.Rect, ldMask, pt)
@@ -420,9 +422,6 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 				blend.Clear.Draw(buf, buf.Rect, image.Transparent, image.Point{})
 			}
 		}
-		if blendMode == psd.BlendModePassThrough {
-			blend.DestOver.Draw(buf, buf.Rect, b, pt)
-		}
 	}
 
 	if len(l.Clip) == 0 {
-- 
2.43.0


From 2a8563079555ed44e3776c1a0d7dbb2094c28b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 40/53] fix: layers clipped to a layer that does not blend
 clipped layers as group are drawn

---
 composite/renderer.go | 54 +++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/composite/renderer.go b/composite/renderer.go
index 9df7339..6c214b5 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -367,23 +367,26 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 	}
 
 	if len(l.Children) > 0 {
-		c = r.getCache(l.SeqID, true)
-		c.M.RLock()
-		if cs, ok := c.Cached[pt]; ok {
-			if cs == csCached {
-				ci := c.Image[pt]
-				c.M.RUnlock()
-				if blendMode == psd.BlendModePassThrough {
-					blend.Copy.Draw(b, b.Rect, ci, pt)
-				} else {
-					drawWithOpacity(b, b.Rect, ci, pt, opacity, blendMode)
+		// if clipped layers are drawn one by one, there is no single image to keep.
+		if len(l.Clip) == 0 || l.BlendClippedElements {
+			c = r.getCache(l.SeqID, true)
+			c.M.RLock()
+			if cs, ok := c.Cached[pt]; ok {
+				if cs == csCached {
+					ci := c.Image[pt]
+					c.M.RUnlock()
+					if blendMode == psd.BlendModePassThrough {
+						blend.Copy.Draw(b, b.Rect, ci, pt)
+					} else {
+						drawWithOpacity(b, b.Rect, ci, pt, opacity, blendMode)
+					}
+					return r.updateCache(drDrewFromCache, l, pt, buf, c, clst)
 				}
-				return r.updateCache(drDrewFromCache, l, pt, buf, c, clst)
+				c.M.RUnlock()
+				return r.updateCache(drDrewFromCacheInvisible, l, pt, buf, c, clst)
 			}
 			c.M.RUnlock()
-			return r.updateCache(drDrewFromCacheInvisible, l, pt, buf, c, clst)
 		}
-		c.M.RUnlock()
 
 		buf = r.getBuffer(pt)
 		defer r.putBuffer(buf)
@@ -450,22 +453,17 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 
 	// this is minor code path.
 	// it is only used when "Blend Clipped Layers as Group" is unchecked in Photoshop's Layer Style dialog.
-	// TODO: implement
 	drawWithOpacity(b, buf.Rect, buf, pt, opacity, blendMode)
 	for _, cl := range l.Clip {
-		r.drawLayer(pt, b, clst, cl, cl.Opacity, cl.BlendMode, false)
-	}
-
-	// this.draw(ctx, bb, x + n.layer.X, y + n.layer.Y, opacity, blendMode);
-	// this.clear(cbbctx);
-	// for (let cn of n.clip) {
-	// 	if (!this.drawLayer(cbbctx, cn, -n.layer.X, -n.layer.Y, 1, 'source-over')) {
-	// 		continue;
-	// 	}
-	// 	this.draw(cbbctx, bb, 0, 0, 1, 'destination-in');
-	// 	this.draw(ctx, cbb, x + n.layer.X, y + n.layer.Y, cn.layer.Opacity / 255, cn.layer.BlendMode);
-	// 	this.clear(cbbctx);
-	// }
-	// n.state = n.nextState;
+		if !cl.Visible || cl.Opacity == 0 {
+			continue
+		}
+		for i := range clipBuf.Pix {
+			clipBuf.Pix[i] = 0
+		}
+		r.drawLayer(pt, clipBuf, clst, cl, 255, psd.BlendModeNormal, true)
+		blend.DestIn.Draw(clipBuf, buf.Rect, buf, pt)
+		drawWithOpacity(b, clipBuf.Rect, clipBuf, pt, cl.Opacity, cl.BlendMode)
+	}
 	return r.updateCache(drDrew, l, pt, buf, c, clst)
 }
-- 
2.43.0


From 86d9155461c2deaf01584727b6f6615b95dfc971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:07 +0000
Subject: [PATCH 41/53] fix: a transformed rectangle is not one pixel larger
 than it is

---
 composite/layer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index d879e56..abf7e46 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -159,7 +159,7 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 		dx, dy := sx*m[0]+sy*m[1]+m[2], sx*m[3]+sy*m[4]+m[5]
 		if i == 0 {
 			xMin, yMin = dx, dy
-			xMax, yMax = dx+1, dy+1
+			xMax, yMax = dx, dy
 			continue
 		}
 		if xMin > dx {
@@ -168,8 +168,6 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 		if yMin > dy {
 			yMin = dy
 		}
-		dx++
-		dy++
 		if xMax < dx {
 			xMax = dx
 		}
-- 
2.43.0


From 30408939ca17147a0a98509ffee646fed8cf0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:12 +0000
Subject: [PATCH 42/53] fix: TransformMatrix can rotate by 90 degrees

---
 composite/layer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index abf7e46..413bc79 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -192,10 +192,11 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	if opt.TileSize == 0 {
 		opt.TileSize = DefaultTileSize
 	}
-	if opt.TransformMatrix[0] == 0 {
+	// A matrix that rotates by 90 degrees has zeros in the diagonal.
+	if opt.TransformMatrix[0] == 0 && opt.TransformMatrix[1] == 0 {
 		opt.TransformMatrix[0] = 1
 	}
-	if opt.TransformMatrix[4] == 0 {
+	if opt.TransformMatrix[3] == 0 && opt.TransformMatrix[4] == 0 {
 		opt.TransformMatrix[4] = 1
 	}
 	var gt *gammaTable
-- 
2.43.0


From 875b9dc82eb1432ad179d954fdd2c7c5e90167ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 43/53] fix: New of the compositor does not modify the options
 it is given

---
 composite/layer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composite/layer.go b/composite/layer.go
index 413bc79..0944657 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -188,6 +188,10 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	if opt == nil {
 		opt = &Options{}
+	} else {
+		// Do not modify the options of the caller.
+		o := *opt
+		opt = &o
 	}
 	if opt.TileSize == 0 {
 		opt.TileSize = DefaultTileSize
-- 
2.43.0


From a23ecd020a0372153c96d6ef8e7c9fe99f3d8d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:22 +0000
Subject: [PATCH 44/53] fix: transforming a mask that is white by default does
 not hide what is outside of the mask

---
 composite/layerimage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 8381cc6..da19c5a 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -425,6 +425,14 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 	if m[0] == 1 && m[1] == 0 && m[2] == 0 && m[3] == 0 && m[4] == 1 && m[5] == 0 {
 		return newTiledMask(ctx, tileSize, rect, a, defaultColor)
 	}
+	if defaultColor == 255 {
+		// It is white outside of the mask.
+		inv := make([]byte, len(a))
+		for i, v := range a {
+			inv[i] = 255 - v
+		}
+		a, defaultColor = inv, 0
+	}
 	tmp := createMask(rect, a)
 	trRect := transformRect(rect, m)
 	tmp2 := image.NewAlpha(trRect)
-- 
2.43.0


From fd032b9e0e75bb4ee72382e9293e7c3f53e6a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 45/53] fix: New of the compositor does not hang or return an
 incomplete tree when it is canceled

---
 composite/layer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 0944657..c34d706 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -288,6 +288,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	if err = pc.Wait(ctx); err != nil {
 		return nil, nil, err
 	}
+	if pc.Aborted() {
+		return nil, nil, ErrAborted
+	}
 	img.Config.Rect = transformRect(img.Config.Rect, m)
 	return layerImages, img, nil
 }
@@ -303,6 +306,10 @@ func channelData(l *psd.Layer, id int) []byte {
 func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
+		if pc.Aborted() {
+			// The decoder waits until the layer is received.
+			continue
+		}
 		var ld layerImage
 		if l.HasImage() && !l.Rect.Empty() {
 			r, g, b := channelData(l, 0), channelData(l, 1), channelData(l, 2)
@@ -312,7 +319,8 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 			}
 			ti, err := newScaledTiledImage(ctx, tileSize, l.Rect, r, g, b, a, 1, m, gt)
 			if err != nil {
-				return
+				pc.SetAbort()
+				continue
 			}
 			ld.Canvas = ti
 		}
@@ -320,7 +328,8 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 			if a, ok := l.Channel[-2]; ok {
 				m, err := newScaledTiledMask(ctx, tileSize, l.Mask.Rect, a.Data, l.Mask.DefaultColor, m)
 				if err != nil {
-					return
+					pc.SetAbort()
+					continue
 				}
 				ld.Mask = m
 			}
-- 
2.43.0


From 323c8f65f8759b043c473bb982855ca856ed30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:33 +0000
Subject: [PATCH 46/53] fix: thumbnails do not lose the last row and column of
 the layer

---
 composite/thumbnail.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index bcd916e..b401010 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -29,8 +29,8 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				}
 				for r := w - 1; r >= l; r-- {
 					if pix[r*4+3] > threshold {
-						if r > rect.Max.X {
-							rect.Max.X = r
+						if r >= rect.Max.X {
+							rect.Max.X = r + 1
 						}
 						break
 					}
@@ -38,7 +38,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				if y < rect.Min.Y {
 					rect.Min.Y = y
 				}
-				rect.Max.Y = y
+				rect.Max.Y = y + 1
 				break
 			}
 		}
@@ -54,9 +54,8 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	s := d[stride*rect.Min.Y+rect.Min.X*4:]
 	w, h = rect.Dx()*4, rect.Dy()
 	for y := 0; y < h; y++ {
-		copy(d, s[:w])
+		copy(d, s[y*stride:y*stride+w])
 		d = d[w:]
-		s = s[stride:]
 	}
 	src.Rect = rect
 	src.Stride = w
-- 
2.43.0


From 10dd2da5b8ee8f4aa7186ba4f8f81c01e0de20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:38 +0000
Subject: [PATCH 47/53] fix: the thumbnail of a thin layer is not empty

---
 composite/thumbnail.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index b401010..7cb07b8 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -62,6 +62,13 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	src.Pix = src.Pix[:rect.Dy()*w]
 }
 
+func atLeast1(v int) int {
+	if v < 1 {
+		return 1
+	}
+	return v
+}
+
 // Thumbnail creates thumbnail.
 func (t *Tree) Thumbnail(seqID int, size int, tempBuffer []byte) (*image.NRGBA, error) {
 	ld, ok := t.layerImage[seqID]
@@ -94,9 +101,9 @@ func (t *Tree) Thumbnail(seqID int, size int, tempBuffer []byte) (*image.NRGBA,
 		return nil, errors.Wrap(errNoCanvas, "composite: failed to create thumbnail")
 	}
 	if sw > sh {
-		dest = image.NewNRGBA(image.Rect(0, 0, size, sh*size/sw))
+		dest = image.NewNRGBA(image.Rect(0, 0, size, atLeast1(sh*size/sw)))
 	} else {
-		dest = image.NewNRGBA(image.Rect(0, 0, sw*size/sh, size))
+		dest = image.NewNRGBA(image.Rect(0, 0, atLeast1(sw*size/sh), size))
 	}
 	if err := downscale.NRGBAFast(context.Background(), dest, src); err != nil {
 		return nil, errors.Wrap(err, "composite: failed to create thumbnail")
-- 
2.43.0


From aa7eb96cf480adba38a8e44eeee936a51f1f2687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 48/53] fix: what a mask does to a translucent pixel does not
 depend on the tile size

---
 composite/draw.go     | 33 +++++++++++++++++++++++++--------
 composite/renderer.go | 12 +-----------
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/composite/draw.go b/composite/draw.go
index ebf037e..67ebcac 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -47,18 +47,35 @@ func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image
 	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
+// maskAt returns the value of the i-th pixel of the mask tile.
+// The values of the tile are inverted if defaultColor is 255.
+func maskAt(mask *image.Alpha, i int, defaultColor int) uint32 {
+	var m uint32
+	if mask != nil {
+		m = uint32(mask.Pix[i])
+	}
+	if defaultColor == 255 {
+		m = 255 - m
+	}
+	return m
+}
+
+// applyMask multiplies the alpha of buf by the mask, and leaves the color as it is.
+func applyMask(buf *image.NRGBA, mask *image.Alpha, defaultColor int) {
+	d := buf.Pix
+	for i := 0; i < len(d); i += 4 {
+		d[i+3] = uint8((uint32(d[i+3])*maskAt(mask, i>>2, defaultColor) + 127) / 255)
+		if d[i+3] == 0 {
+			d[i+0], d[i+1], d[i+2] = 0, 0, 0
+		}
+	}
+}
+
 // mixByMask returns b to buf where the mask hides buf.
-// The values of the mask are inverted if defaultColor is 255.
 func mixByMask(buf *image.NRGBA, b *image.NRGBA, mask *image.Alpha, defaultColor int) {
 	d, s := buf.Pix, b.Pix
 	for i := 0; i < len(d); i += 4 {
-		var m uint32
-		if mask != nil {
-			m = uint32(mask.Pix[i>>2])
-		}
-		if defaultColor == 255 {
-			m = 255 - m
-		}
+		m := maskAt(mask, i>>2, defaultColor)
 		wd, ws := uint32(d[i+3])*m, uint32(s[i+3])*(255-m)
 		w := wd + ws
 		if w == 0 {
diff --git a/composite/renderer.go b/composite/renderer.go
index 6c214b5..e1de823 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -414,17 +414,7 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 	if l.MaskEnabled && blendMode == psd.BlendModePassThrough {
 		mixByMask(buf, b, ld.Mask[pt], l.MaskDefaultColor)
 	} else if l.MaskEnabled {
-		if ldMask, ok := ld.Mask[pt]; ok {
-			if l.MaskDefaultColor != 255 {
-				blend.DestIn.Draw(buf, buf.Rect, ldMask, pt)
-			} else {
-				blend.DestOut.Draw(buf, buf.Rect, ldMask, pt)
-			}
-		} else {
-			if l.MaskDefaultColor != 255 {
-				blend.Clear.Draw(buf, buf.Rect, image.Transparent, image.Point{})
-			}
-		}
+		applyMask(buf, ld.Mask[pt], l.MaskDefaultColor)
 	}
 
 	if len(l.Clip) == 0 {
-- 
2.43.0


From eca0d7cea9bc480e0da480335a342cdb2f540722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 49/53] fix: making thumbnails stops when it is cancelled

---
 composite/thumbnail.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index 7cb07b8..ff14e3e 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -166,6 +166,9 @@ func (t *Tree) thumbnailsInner(pc *parallelContext, m map[int]*image.NRGBA, laye
 	}
 
 	for i := sIdx; i < eIdx; i++ {
+		if pc.Aborted() {
+			return
+		}
 		t, err := t.Thumbnail(layers[i].SeqID, size, buf)
 		if err != nil {
 			continue
-- 
2.43.0


From f6fca4a096ebd5713bb479b30ea96b624f4e6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 50/53] fix: layers at the ends of the coordinate range do not
 crash 32-bit programs

---
 composite/layerimage.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index da19c5a..16244a3 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -239,7 +239,19 @@ func newScaledTiledImage(ctx context.Context, tileSize int, rect image.Rectangle
 	return newTiledImage(ctx, tileSize, trRect, tmp2.Pix[0:], tmp2.Pix[2:], tmp2.Pix[4:], tmp2.Pix[6:], 8)
 }
 
+// tileable reports whether an int can hold the coordinates of the tiles of r.
+//
+// On a 32-bit system, it cannot at the ends of the range of the file format, where no canvas reaches.
+func tileable(r image.Rectangle, tileSize int) bool {
+	const maxInt = int(^uint(0) >> 1)
+	min, max := -maxInt+tileSize, maxInt-tileSize
+	return r.Min.X >= min && r.Min.Y >= min && r.Max.X <= max && r.Max.Y <= max
+}
+
 func newTiledImage(ctx context.Context, tileSize int, rect image.Rectangle, r, g, b, a []byte, deltaX int) (tiledImage, error) {
+	if !tileable(rect, tileSize) {
+		return tiledImage{}, nil
+	}
 	x0, x1 := floorToTile(rect.Min.X, tileSize), rect.Max.X
 	y0, y1 := floorToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
@@ -442,6 +454,9 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 }
 
 func newTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int) (tiledMask, error) {
+	if !tileable(rect, tileSize) {
+		return tiledMask{}, nil
+	}
 	x0, x1 := floorToTile(rect.Min.X, tileSize), rect.Max.X
 	y0, y1 := floorToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
-- 
2.43.0


From c995a6b7db4551af3b54ac2eedcfda5b166a5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 51/53] fix: a document with two lists of layers in its
 additional information is an error

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 1bdeab4..28bb19f 100644
--- a/layer.go
+++ b/layer.go
@@ -924,6 +924,9 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 				return nil, nil, read, err
 			}
 			read += l
+			if len(layers) > 0 && len(layrs) > 0 {
+				return nil, nil, read, errors.New("psd: unexpected layer structure")
+			}
 			layers = append(layers, layrs...)
 		default:
 			intSize := key.LenSize(cfg.PSB())
-- 
2.43.0


From baedfb8e63dc0c6beda00b790435a62a5f78cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 52/53] fix: layers within layers are refused at once: deep
 nesting brought the process down

---
 layer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/layer.go b/layer.go
index 28bb19f..12dffbd 100644
--- a/layer.go
+++ b/layer.go
@@ -133,7 +133,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 
 	var layer []Layer
 	if read < layerAndMaskInfoLen+intSize {
-		if layer, l, err = readLayerInfo(r, cfg, o); err != nil {
+		if layer, l, err = readLayerInfo(r, false, cfg, o); err != nil {
 			return nil, read, err
 		}
 		read += l
@@ -165,7 +165,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 
 	if layerAndMaskInfoLen+intSize-read >= 8 {
 		var layer2 []Layer
-		if psd.AdditinalLayerInfo, layer2, l, err = readAdditionalLayerInfo(r, layerAndMaskInfoLen+intSize-read, cfg, o); err != nil {
+		if psd.AdditinalLayerInfo, layer2, l, err = readAdditionalLayerInfo(r, layerAndMaskInfoLen+intSize-read, false, cfg, o); err != nil {
 			return nil, read, err
 		}
 		read += l
@@ -284,7 +284,7 @@ type layerChannelInfo struct {
 	ChannelData []channelData
 }
 
-func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, read int, err error) {
+func readLayerInfo(r io.Reader, nested bool, cfg *Config, o *DecodeOptions) (layer []Layer, read int, err error) {
 	intSize := get4or8(cfg.PSB())
 	if Debug != nil {
 		Debug.Println("start - layer info section")
@@ -322,6 +322,10 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 	if Debug != nil {
 		Debug.Println("  numLayers:", numLayers)
 	}
+	if nested && numLayers > 0 {
+		// a layer cannot hold layers, refuse them before they are nested too deeply.
+		return nil, read, errors.New("psd: unexpected layer structure")
+	}
 
 	layerSlice := make([]Layer, numLayers)
 	lcis := make([]layerChannelInfo, numLayers)
@@ -641,7 +645,7 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 
 	if read < extraDataLen+4 {
 		var layers []Layer
-		if layer.AdditionalLayerInfo, layers, l, err = readAdditionalLayerInfo(r, extraDataLen+4-read, cfg, o); err != nil {
+		if layer.AdditionalLayerInfo, layers, l, err = readAdditionalLayerInfo(r, extraDataLen+4-read, true, cfg, o); err != nil {
 			return read, err
 		}
 		read += l
@@ -881,7 +885,7 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	return read, nil
 }
 
-func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOptions) (infos map[AdditionalInfoKey][]byte, layers []Layer, read int, err error) {
+func readAdditionalLayerInfo(r io.Reader, infoLen int, nested bool, cfg *Config, o *DecodeOptions) (infos map[AdditionalInfoKey][]byte, layers []Layer, read int, err error) {
 	if Debug != nil {
 		Debug.Println("start - additional layer info section")
 		Debug.Println("  infoLen:", infoLen)
@@ -920,7 +924,7 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 				Debug.Println("  key:", key)
 			}
 			var layrs []Layer
-			if layrs, l, err = readLayerInfo(r, cfg, o); err != nil {
+			if layrs, l, err = readLayerInfo(r, nested, cfg, o); err != nil {
 				return nil, nil, read, err
 			}
 			read += l
-- 
2.43.0


From 618d9187d3091882c178abab70d851413db5a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 53/53] fix: blend: draw a part of an image onto an overlapping
 part of the same image in the right order, whatever the type of the image

---
 blend/draw.go | 36 ++++++++++++++++++++++++++++++++++--
 blend/util.go |  2 +-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/blend/draw.go b/blend/draw.go
index d46099f..07294d0 100644
--- a/blend/draw.go
+++ b/blend/draw.go
@@ -35,6 +35,38 @@ func sameBuffer(a, b []byte) bool {
 	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
 }
 
+// sameImage reports whether a and b are the same image or parts of the same image.
+func sameImage(a, b image.Image) bool {
+	return a == b || sameBuffer(pixels(a), pixels(b))
+}
+
+// pixels returns the array of m if its type is known.
+func pixels(m image.Image) []byte {
+	switch m := m.(type) {
+	case *image.NRGBA:
+		return m.Pix
+	case *image.RGBA:
+		return m.Pix
+	case *image.NRGBA64:
+		return m.Pix
+	case *image.RGBA64:
+		return m.Pix
+	case *image.Alpha:
+		return m.Pix
+	case *image.Alpha16:
+		return m.Pix
+	case *image.Gray:
+		return m.Pix
+	case *image.Gray16:
+		return m.Pix
+	case *image.CMYK:
+		return m.Pix
+	case *image.Paletted:
+		return m.Pix
+	}
+	return nil
+}
+
 type drawFunc func(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int)
 
 func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
@@ -108,8 +140,8 @@ func (f drawFallbackFunc) Parallel(dst draw.Image, pX int, pY int, src image.Ima
 	for n > 1 && n<<1 > y {
 		n--
 	}
-	// Rows have to be processed in order when dst and src are the same image.
-	if n == 1 || image.Image(dst) == src {
+	// Rows have to be processed in order when dst and src are parts of the same image.
+	if n == 1 || sameImage(dst, src) {
 		f(dst, pX, pY, src, spX, spY, mask, mpX, mpY, endX, endY, dx, dy)
 		return
 	}
diff --git a/blend/util.go b/blend/util.go
index 8920d2a..afc05bc 100644
--- a/blend/util.go
+++ b/blend/util.go
@@ -202,7 +202,7 @@ func clamp16f(a float64) uint32 {
 }
 
 func processBackward(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point) bool {
-	return image.Image(dst) == src &&
+	return sameImage(dst, src) &&
 		r.Overlaps(r.Add(sp.Sub(r.Min))) &&
 		(sp.Y < r.Min.Y || (sp.Y == r.Min.Y && sp.X < r.Min.X))
 }
-- 
2.43.0

