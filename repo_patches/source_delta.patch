From a0f20c083b81d29ef8fdd2d210617d3e7f1affd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 01/23] fix: do not look past the payload of a meta box shorter
 than a full box header

---
 box_types_iso14496_12.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index d258716..6239efe 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -896,6 +896,12 @@ func (*Meta) GetType() BoxType {
 func (meta *Meta) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx Context) (n uint64, override bool, err error) {
 	// for Apple Quick Time
 	buf := make([]byte, 4)
+	if size < uint64(len(buf)) {
+		// there is no room for version and flags
+		meta.Version = 0
+		meta.Flags = [3]byte{0, 0, 0}
+		return 0, true, nil
+	}
 	if _, err := io.ReadFull(r, buf); err != nil {
 		return 0, false, err
 	}
-- 
2.43.0


From 0026506c24ae703cbe58470e40039172601ea882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 02/23] fix: recognise a Pascal-style handler name of 255 bytes

---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 6239efe..36ed311 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -649,9 +649,9 @@ func (hdlr *Hdlr) OnReadName(r bitio.ReadSeeker, leftBits uint64, ctx Context) (
 	}
 
 	plen := buf[0]
-	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen+1) {
+	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen)+1 {
 		// Pascal-style String
-		hdlr.Name = string(buf[1 : plen+1])
+		hdlr.Name = string(buf[1:])
 	} else {
 		// C-style String
 		clen := 0
-- 
2.43.0


From 66f35b7d0ab70d6ea11b32af6e1e613235d50122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 03/23] fix: report errors raised while encoding slice elements
 and variable-length integers

---
 marshaller.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index 8dd9637..e6b7a2e 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -151,7 +151,9 @@ func (m *marshaller) marshalSlice(v reflect.Value, fi *fieldInstance) error {
 	}
 
 	for i := 0; i < int(length); i++ {
-		m.marshal(v.Index(i), fi)
+		if err := m.marshal(v.Index(i), fi); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -196,8 +198,7 @@ func (m *marshaller) marshalUint(v reflect.Value, fi *fieldInstance) error {
 	val := v.Uint()
 
 	if fi.is(fieldVarint) {
-		m.writeUvarint(val)
-		return nil
+		return m.writeUvarint(val)
 	}
 
 	for i := uint(0); i < fi.size; i += 8 {
-- 
2.43.0


From 3a3ef00672446210615b2f9ab9f9652b32ca1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 04/23] fix: honour the entry count of roll-distance groups and
 decode entries with their own length

---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 36ed311..d23ab30 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1559,8 +1559,8 @@ type Sgpd struct {
 	DefaultLength                 uint32                     `mp4:"2,size=32,ver=1"`
 	DefaultSampleDescriptionIndex uint32                     `mp4:"3,size=32,ver=2"`
 	EntryCount                    uint32                     `mp4:"4,size=32"`
-	RollDistances                 []int16                    `mp4:"5,size=16,opt=dynamic"`
-	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=16,opt=dynamic"`
+	RollDistances                 []int16                    `mp4:"5,size=16,len=dynamic,opt=dynamic"`
+	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=48,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntries     []AlternativeStartupEntry  `mp4:"7,size=dynamic,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntriesL    []AlternativeStartupEntryL `mp4:"8,len=dynamic,opt=dynamic"`
 	VisualRandomAccessEntries     []VisualRandomAccessEntry  `mp4:"9,len=dynamic,opt=dynamic"`
-- 
2.43.0


From edfa491a6bb6a81509312ef97dec61e32d9a9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 05/23] fix: reject box sizes smaller than the header or beyond
 the largest file offset

---
 box_info.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/box_info.go b/box_info.go
index 1cb4b8a..d58706a 100644
--- a/box_info.go
+++ b/box_info.go
@@ -142,9 +142,12 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 		bi.Size = binary.BigEndian.Uint64(buf.Bytes())
 	}
 
-	if bi.Size == 0 {
+	if bi.Size < bi.HeaderSize {
 		return nil, fmt.Errorf("invalid size")
 	}
+	if bi.Size > math.MaxInt64-bi.Offset {
+		return nil, fmt.Errorf("too large box size: type=%s, size=%d", bi.Type.String(), bi.Size)
+	}
 
 	return bi, nil
 }
-- 
2.43.0


From 2c67871d5d7d936b302196b440da3783b557eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 06/23] fix: decode extracted payloads in the context of their
 own box

---
 extract.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extract.go b/extract.go
index 7de36b0..c8cb2ab 100644
--- a/extract.go
+++ b/extract.go
@@ -26,11 +26,7 @@ func ExtractBoxesWithPayload(r io.ReadSeeker, parent *BoxInfo, paths []BoxPath)
 			return nil, err
 		}
 
-		var ctx Context
-		if parent != nil {
-			ctx = parent.Context
-		}
-		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, ctx)
+		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, bi.Context)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f1cd289668e708e4037e2df7c76e352ee15c8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 07/23] fix: reject payload sizes whose length in bits
 overflows

Unmarshal counts bits. For a declared payload of 2^61 bytes or more the
count wrapped around, so that e.g. a free box claiming 2^61+1 bytes was
decoded successfully from a single byte.
---
 marshaller.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index e6b7a2e..decc697 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -290,6 +290,11 @@ func Unmarshal(r io.ReadSeeker, payloadSize uint64, dst IBox, ctx Context) (n ui
 		return 0, ErrBoxInfoNotFound
 	}
 
+	// the unmarshaller counts bits
+	if payloadSize > math.MaxUint64/8 {
+		return 0, fmt.Errorf("too large payload size: type=%s, size=%d", dst.GetType().String(), payloadSize)
+	}
+
 	v := reflect.ValueOf(dst).Elem()
 
 	dst.SetVersion(anyVersion)
-- 
2.43.0


From d4653734ff0308aab52c1c14d2fe11c423a60e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 08/23] fix: accept the last byte when the reader returns it
 together with io.EOF

---
 internal/bitio/read.go | 8 +++++---
 internal/util/io.go    | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/bitio/read.go b/internal/bitio/read.go
index 4da76ea..afdfe5b 100644
--- a/internal/bitio/read.go
+++ b/internal/bitio/read.go
@@ -59,9 +59,11 @@ func (r *reader) ReadBits(size uint) ([]byte, error) {
 func (r *reader) ReadBit() (bool, error) {
 	if r.width == 0 {
 		buf := make([]byte, 1)
-		if n, err := r.reader.Read(buf); err != nil {
-			return false, err
-		} else if n != 1 {
+		// the last byte may come together with an error (io.EOF)
+		if n, err := r.reader.Read(buf); n != 1 {
+			if err != nil {
+				return false, err
+			}
 			return false, ErrDiscouragedReader
 		}
 		r.octet = buf[0]
diff --git a/internal/util/io.go b/internal/util/io.go
index 1e46811..e90a904 100644
--- a/internal/util/io.go
+++ b/internal/util/io.go
@@ -9,7 +9,8 @@ func ReadString(r io.Reader) (string, error) {
 	b := make([]byte, 1)
 	buf := bytes.NewBuffer(nil)
 	for {
-		if _, err := r.Read(b); err != nil {
+		// the last byte may come together with an error (io.EOF)
+		if _, err := io.ReadFull(r, b); err != nil {
 			return "", err
 		}
 		if b[0] == 0 {
-- 
2.43.0


From d0477cc2dde618a236ab33ec92ea241e96f65b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 09/23] fix: report the constant sample size when probing

---
 probe.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/probe.go b/probe.go
index 2ffaf7a..accdf9b 100644
--- a/probe.go
+++ b/probe.go
@@ -359,6 +359,12 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 	}
 
 	if stsz != nil {
+		if stsz.SampleSize != 0 {
+			// all the samples have the same size
+			for _, sample := range track.Samples {
+				sample.Size = stsz.SampleSize
+			}
+		}
 		for i := 0; i < len(stsz.EntrySize) && i < len(track.Samples); i++ {
 			track.Samples[i].Size = stsz.EntrySize[i]
 		}
-- 
2.43.0


From 6f8928003f82ae54e6b7f86b4cd5aa1a0b554330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 10/23] fix: end the key frame search on NAL unit lengths that
 overflow the offset

---
 probe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probe.go b/probe.go
index accdf9b..bb7cbea 100644
--- a/probe.go
+++ b/probe.go
@@ -576,7 +576,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 	if trackInfo.AVC == nil {
 		return nil, nil
 	}
-	lengthSize := uint32(trackInfo.AVC.LengthSize)
+	lengthSize := uint64(trackInfo.AVC.LengthSize)
 
 	var si int
 	idxs := make([]int, 0, 8)
@@ -588,8 +588,8 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 			if sample.Size == 0 {
 				continue
 			}
-			for nalOffset := uint32(0); nalOffset+lengthSize+1 <= sample.Size; {
-				if _, err := r.Seek(int64(dataOffset+uint64(nalOffset)), io.SeekStart); err != nil {
+			for nalOffset := uint64(0); nalOffset+lengthSize+1 <= uint64(sample.Size); {
+				if _, err := r.Seek(int64(dataOffset+nalOffset), io.SeekStart); err != nil {
 					return nil, err
 				}
 				data := make([]byte, lengthSize+1)
@@ -606,7 +606,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 					idxs = append(idxs, si)
 					break
 				}
-				nalOffset += lengthSize + length
+				nalOffset += lengthSize + uint64(length)
 			}
 			dataOffset += uint64(sample.Size)
 		}
-- 
2.43.0


From f5597921b283db7bb9eca65c7f83749a7b59db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 11/23] fix: do not take the byte after an empty NAL unit for
 its header

---
 probe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probe.go b/probe.go
index bb7cbea..8f1a1ff 100644
--- a/probe.go
+++ b/probe.go
@@ -602,7 +602,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 				}
 				nalHeader := data[lengthSize]
 				nalType := nalHeader & 0x1f
-				if nalType == 5 {
+				if length != 0 && nalType == 5 {
 					idxs = append(idxs, si)
 					break
 				}
-- 
2.43.0


From e670094558b3b1602b48b9a53b02ce58196a0a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 12/23] fix: do not divide by the zero duration of a bitrate
 window

---
 probe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index 8f1a1ff..4001816 100644
--- a/probe.go
+++ b/probe.go
@@ -645,9 +645,11 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 				break
 			}
 		}
-		bitrate := 8 * size * uint64(timescale) / duration
-		if bitrate > maxBitrate {
-			maxBitrate = bitrate
+		if duration != 0 {
+			bitrate := 8 * size * uint64(timescale) / duration
+			if bitrate > maxBitrate {
+				maxBitrate = bitrate
+			}
 		}
 		for {
 			size -= uint64(samples[begin].Size)
-- 
2.43.0


From b7c7fdaf251f2584db6a952c48e5d6b1d1dbcef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 13/23] fix: print the Version field of the structure itself

Boxes that are not full boxes but have a field called Version (dOps,
numbered metadata items) were always printed with version zero.
---
 string.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index 4bc368e..8f0fa85 100644
--- a/string.go
+++ b/string.go
@@ -110,8 +110,8 @@ func (m *stringifier) stringifyStruct(v reflect.Value, fs []*field, depth int, e
 			continue
 		}
 
-		if f.name == "Version" {
-			m.buf.WriteString(strconv.Itoa(int(m.src.GetVersion())))
+		if fv := v.FieldByName(f.name); f.name == "Version" && fv.Kind() == reflect.Uint8 {
+			m.buf.WriteString(strconv.FormatUint(fv.Uint(), 10))
 		} else if f.name == "Flags" {
 			fmt.Fprintf(m.buf, "0x%06x", m.src.GetFlags())
 		} else {
-- 
2.43.0


From ab7f50227b74d3b3ae5f12bd50e0a76c4966f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 14/23] fix: do not print control characters for language codes

The code 0x7fff (unspecified) was printed as three DEL characters.
---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 8f0fa85..ac3fb5f 100644
--- a/string.go
+++ b/string.go
@@ -225,7 +225,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 
 func (m *stringifier) stringifyUint(v reflect.Value, fi *fieldInstance, depth int) error {
 	if fi.is(fieldISO639_2) {
-		m.buf.WriteString(string([]byte{byte(v.Uint() + 0x60)}))
+		m.buf.WriteString(util.EscapeUnprintables(string([]byte{byte(v.Uint() + 0x60)})))
 	} else if fi.is(fieldUUID) {
 		fmt.Fprintf(m.buf, "%02x", v.Uint())
 	} else if fi.is(fieldString) {
-- 
2.43.0


From 40282c91984cf81067d581c47f5cffa11d651db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 15/23] fix: do not crash the mp4tool commands on files whose
 last box is cut off

bufseekio.ReadSeeker panics when it is read from behind the end of the data.
---
 cmd/mp4tool/internal/dump/dump.go         |  3 +-
 cmd/mp4tool/internal/edit/edit.go         |  4 +--
 cmd/mp4tool/internal/extract/extract.go   |  3 +-
 cmd/mp4tool/internal/probe/probe.go       |  4 +--
 cmd/mp4tool/internal/psshdump/psshdump.go |  4 +--
 cmd/mp4tool/internal/util/reader.go       | 41 +++++++++++++++++++++++
 6 files changed, 49 insertions(+), 10 deletions(-)
 create mode 100644 cmd/mp4tool/internal/util/reader.go

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 42280b1..211c0da 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -10,7 +10,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 	"golang.org/x/term"
 )
 
@@ -89,7 +88,7 @@ func (m *mp4dump) dumpFile(fpath string) error {
 	}
 	defer file.Close()
 
-	return m.dump(bufseekio.NewReadSeeker(file, blockSize, blockHistorySize))
+	return m.dump(util.NewReadSeeker(file, blockSize, blockHistorySize))
 }
 
 func (m *mp4dump) dump(r io.ReadSeeker) error {
diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index c9ce7f1..15a4ee4 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -8,7 +8,7 @@ import (
 	"strings"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 const UNoValue = math.MaxUint64
@@ -76,7 +76,7 @@ func editFile(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 128*1024, 4)
+	r := util.NewReadSeeker(inputFile, 128*1024, 4)
 	w := mp4.NewWriter(outputFile)
 	_, err = mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
 		if config.dropBoxes.Exists(h.BoxInfo.Type.String()) {
diff --git a/cmd/mp4tool/internal/extract/extract.go b/cmd/mp4tool/internal/extract/extract.go
index 51f93e2..dd8d773 100644
--- a/cmd/mp4tool/internal/extract/extract.go
+++ b/cmd/mp4tool/internal/extract/extract.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 )
 
 const (
@@ -45,7 +44,7 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, blockSize, blockHistorySize)
+	r := util.NewReadSeeker(input, blockSize, blockHistorySize)
 	if err := extract(r, mp4.StrToBoxType(boxType)); err != nil {
 		fmt.Println("Error:", err)
 		return 1
diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index 41568b8..b894b81 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -8,7 +8,7 @@ import (
 	"os"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 	"gopkg.in/yaml.v2"
 )
 
@@ -34,7 +34,7 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, 1024, 4)
+	r := util.NewReadSeeker(input, 1024, 4)
 	rep, err := buildReport(r)
 	if err != nil {
 		fmt.Println("Error:", err)
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 368bf0e..160c10d 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -7,7 +7,7 @@ import (
 	"os"
 
 	mp4 "github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 func Main(args []string) int {
@@ -30,7 +30,7 @@ func dump(inputFilePath string) error {
 	}
 	defer inputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 1024, 4)
+	r := util.NewReadSeeker(inputFile, 1024, 4)
 
 	bs, err := mp4.ExtractBoxesWithPayload(r, nil, []mp4.BoxPath{
 		{mp4.BoxTypeMoov(), mp4.BoxTypePssh()},
diff --git a/cmd/mp4tool/internal/util/reader.go b/cmd/mp4tool/internal/util/reader.go
new file mode 100644
index 0000000..a8998bc
--- /dev/null
+++ b/cmd/mp4tool/internal/util/reader.go
@@ -0,0 +1,41 @@
+package util
+
+import (
+	"io"
+
+	"github.com/sunfish-shogi/bufseekio"
+)
+
+// ReadSeeker is a buffered reader.
+// Unlike bufseekio.ReadSeeker, it reports io.EOF when it is read from behind the end of the data.
+type ReadSeeker struct {
+	*bufseekio.ReadSeeker
+	src io.ReadSeeker
+	end int64
+}
+
+func NewReadSeeker(r io.ReadSeeker, blockSize, historySize int) *ReadSeeker {
+	return &ReadSeeker{
+		ReadSeeker: bufseekio.NewReadSeeker(r, blockSize, historySize),
+		src:        r,
+		end:        -1,
+	}
+}
+
+func (r *ReadSeeker) Read(p []byte) (int, error) {
+	if r.end < 0 {
+		end, err := r.src.Seek(0, io.SeekEnd)
+		if err != nil {
+			return 0, err
+		}
+		r.end = end
+	}
+	curr, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	if curr >= r.end {
+		return 0, io.EOF
+	}
+	return r.ReadSeeker.Read(p)
+}
-- 
2.43.0


From e510744dfee4407a91e36c245192a8712a87e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 16/23] fix: do not allocate the declared size of a box before
 dumping its data

---
 cmd/mp4tool/internal/dump/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 211c0da..92363cb 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -155,7 +155,7 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 
 		// unsupported box type
 		if full {
-			buf := bytes.NewBuffer(make([]byte, 0, h.BoxInfo.Size-h.BoxInfo.HeaderSize))
+			buf := bytes.NewBuffer(nil)
 			if _, err := h.ReadData(buf); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From a19b39a2263f9cee9c7a84c5c113faa31129beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 17/23] fix: do not allocate the declared size of a pssh box
 before reading it

---
 cmd/mp4tool/internal/psshdump/psshdump.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 160c10d..11d7e21 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -1,6 +1,7 @@
 package psshdump
 
 import (
+	"bytes"
 	"encoding/base64"
 	"fmt"
 	"io"
@@ -54,8 +55,8 @@ func dump(inputFilePath string) error {
 		if _, err := bs[i].Info.SeekToStart(r); err != nil {
 			return err
 		}
-		rawData := make([]byte, bs[i].Info.Size)
-		if _, err := io.ReadFull(r, rawData); err != nil {
+		rawData := bytes.NewBuffer(nil)
+		if _, err := io.CopyN(rawData, r, int64(bs[i].Info.Size)); err != nil {
 			return err
 		}
 
@@ -66,7 +67,7 @@ func dump(inputFilePath string) error {
 		fmt.Printf("  flags: 0x%x\n", pssh.Flags)
 		fmt.Printf("  systemId: %s\n", sysid)
 		fmt.Printf("  dataSize: %d\n", pssh.DataSize)
-		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData))
+		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData.Bytes()))
 		fmt.Println()
 	}
 
-- 
2.43.0


From 10214b2d1dc2f341e0b95d9b0608f983b1e83b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 18/23] fix: reject a base media decode time that does not fit
 into the tfdt box

---
 cmd/mp4tool/internal/edit/edit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index 15a4ee4..a00f632 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -105,6 +105,9 @@ func editFile(inputPath, outputPath string) error {
 			tfdt := box.(*mp4.Tfdt)
 			if config.values.BaseMediaDecodeTime != UNoValue {
 				if tfdt.GetVersion() == 0 {
+					if config.values.BaseMediaDecodeTime > math.MaxUint32 {
+						return nil, fmt.Errorf("base_media_decode_time does not fit into a version 0 tfdt box: %d", config.values.BaseMediaDecodeTime)
+					}
 					tfdt.BaseMediaDecodeTimeV0 = uint32(config.values.BaseMediaDecodeTime)
 				} else {
 					tfdt.BaseMediaDecodeTimeV1 = config.values.BaseMediaDecodeTime
-- 
2.43.0


From 75bb63d4b1b884f0ce7f1211acd458f11d772274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:09 +0000
Subject: [PATCH 19/23] fix: write every bit of bool fields wider than 8 bits

WriteBits got one byte for any size, so a wider field wrote nothing while
its bits were counted.
---
 marshaller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index decc697..594df68 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -225,7 +225,8 @@ func (m *marshaller) marshalBool(v reflect.Value, fi *fieldInstance) error {
 	} else {
 		val = 0x00
 	}
-	if err := m.writer.WriteBits([]byte{val}, fi.size); err != nil {
+	data := bytes.Repeat([]byte{val}, int((fi.size+7)/8))
+	if err := m.writer.WriteBits(data, fi.size); err != nil {
 		return err
 	}
 	m.wbits += uint64(fi.size)
-- 
2.43.0


From 593f35c2b1f9e6ee3f0189b21b713964b2471a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:09 +0000
Subject: [PATCH 20/23] fix: divide: do not panic on moov children that are not
 copied

The handler returns nil for skipped boxes such as mfra.
---
 cmd/mp4tool/internal/divide/divide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 10c60a6..86877ef 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -216,7 +216,7 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, err
 				}
 				for _, val := range vals {
-					ci := val.(childInfo)
+					ci, _ := val.(childInfo)
 					for _, t := range tracks {
 						// already writeAll is true in Moov box
 						biMap[t.id].Size += ci[t.id]
-- 
2.43.0


From 88e1ec4f6fa7b0aa031308d2fbfbb719a9fb6679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:09 +0000
Subject: [PATCH 21/23] fix: divide: count the samples of every track run

Only the first run was looked at, a fragment without runs panicked, and
durations beyond 32 bits wrapped around.
---
 cmd/mp4tool/internal/divide/divide.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 86877ef..50d31e2 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -284,14 +284,16 @@ func divide(inputFilePath, outputDir string) error {
 				if err != nil {
 					return nil, err
 				}
-				trun := bs[0].Payload.(*mp4.Trun)
-
-				var duration uint32
-				for i := range trun.Entries {
-					if trun.CheckFlag(0x000100) {
-						duration += trun.Entries[i].SampleDuration
-					} else {
-						duration += defaultSampleDuration
+
+				var duration uint64
+				for _, b := range bs {
+					trun := b.Payload.(*mp4.Trun)
+					for i := range trun.Entries {
+						if trun.CheckFlag(0x000100) {
+							duration += uint64(trun.Entries[i].SampleDuration)
+						} else {
+							duration += uint64(defaultSampleDuration)
+						}
 					}
 				}
 
-- 
2.43.0


From cfbb233894ad736cd95d646dadd63513a2adbeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:09 +0000
Subject: [PATCH 22/23] fix: divide: handle media data before the first
 fragment

It panicked for a track with the identifier 0xffffffff. A fragment without
duration gave a meaningless bandwidth.
---
 cmd/mp4tool/internal/divide/divide.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 50d31e2..4091c7f 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -313,9 +313,15 @@ func divide(inputFilePath, outputDir string) error {
 				}
 
 				t := tracks[currTrackID]
-				bandwidth := uint64(float64(h.BoxInfo.Size) * 8 / t.segments[len(t.segments)-1].duration)
-				if bandwidth > t.bandwidth {
-					t.bandwidth = bandwidth
+				if len(t.segments) == 0 {
+					// media data before the first fragment
+					return nil, nil
+				}
+				if duration := t.segments[len(t.segments)-1].duration; duration > 0 {
+					bandwidth := uint64(float64(h.BoxInfo.Size) * 8 / duration)
+					if bandwidth > t.bandwidth {
+						t.bandwidth = bandwidth
+					}
 				}
 			}
 
-- 
2.43.0


From 1a4ee11167200615c448c8638f2f95a6f7ff60fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:17 +0000
Subject: [PATCH 23/23] fix: probe: report a duration of 0 seconds without a
 time scale

NaN and Inf can not be encoded in JSON, so probing a media segment or a
movie without time scale failed.
---
 cmd/mp4tool/internal/probe/probe.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index b894b81..e1e2d89 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -95,7 +95,7 @@ func buildReport(r io.ReadSeeker) (*report, error) {
 		FastStart:        info.FastStart,
 		Timescale:        info.Timescale,
 		Duration:         info.Duration,
-		DurationSeconds:  float32(info.Duration) / float32(info.Timescale),
+		DurationSeconds:  durationSeconds(info.Duration, info.Timescale),
 		Tracks:           make([]*track, 0, len(info.Tracks)),
 	}
 	for _, brand := range info.CompatibleBrands {
@@ -112,7 +112,7 @@ func buildReport(r io.ReadSeeker) (*report, error) {
 			TrackID:         tr.TrackID,
 			Timescale:       tr.Timescale,
 			Duration:        tr.Duration,
-			DurationSeconds: float32(tr.Duration) / float32(tr.Timescale),
+			DurationSeconds: durationSeconds(tr.Duration, tr.Timescale),
 			Encrypted:       tr.Encrypted,
 			Bitrate:         bitrate,
 			MaxBitrate:      maxBitrate,
@@ -152,3 +152,11 @@ func buildReport(r io.ReadSeeker) (*report, error) {
 	}
 	return rep, nil
 }
+
+func durationSeconds(duration uint64, timescale uint32) float32 {
+	if timescale == 0 {
+		// NaN and Inf can not be encoded in JSON
+		return 0
+	}
+	return float32(duration) / float32(timescale)
+}
-- 
2.43.0

