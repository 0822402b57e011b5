From 83120ae4c873f6585ac169588d15f8e346beaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 001/107] fix: riff: duplicate IARL/ICMS native tags made every
 RIFF tag access fail

---
 models/riff/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/riff/model.go b/models/riff/model.go
index ef04520..c27825a 100644
--- a/models/riff/model.go
+++ b/models/riff/model.go
@@ -79,7 +79,7 @@ type RiffInfo struct {
 	SoundSchemeTitle    string `riffinfo:"DISP" xmp:"riffinfo:SoundSchemeTitle"`
 	DateTimeOriginal    string `riffinfo:"DTIM" xmp:"riffinfo:DateTimeOriginal"`
 	Genre2              string `riffinfo:"GENR" xmp:"riffinfo:Genre"`
-	ArchivalLocation    string `riffinfo:"IARL" xmp:"riffinfo:ArchivalLocation"`
+	ArchivalLocation    string `riffinfo:"-"    xmp:"riffinfo:ArchivalLocation"`
 	FirstLanguage       string `riffinfo:"IAS1" xmp:"riffinfo:FirstLanguage"`
 	SecondLanguage      string `riffinfo:"IAS2" xmp:"riffinfo:SecondLanguage"`
 	ThirdLanguage       string `riffinfo:"IAS3" xmp:"riffinfo:ThirdLanguage"`
@@ -92,7 +92,7 @@ type RiffInfo struct {
 	BaseURL             string `riffinfo:"IBSU" xmp:"riffinfo:BaseURL"`
 	DefaultAudioStream  string `riffinfo:"ICAS" xmp:"riffinfo:DefaultAudioStream"`
 	CostumeDesigner     string `riffinfo:"ICDS" xmp:"riffinfo:CostumeDesigner"`
-	Commissioned        string `riffinfo:"ICMS" xmp:"riffinfo:Commissioned"`
+	Commissioned        string `riffinfo:"-"    xmp:"riffinfo:Commissioned"`
 	Cinematographer     string `riffinfo:"ICNM" xmp:"riffinfo:Cinematographer"`
 	Country             string `riffinfo:"ICNT" xmp:"riffinfo:Country"`
 	Cropped             string `riffinfo:"ICRP" xmp:"riffinfo:Cropped"`
-- 
2.43.0


From 69d29e7bc392220a06932b0e77dbb73e4f517d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 002/107] fix: xmp_base: thumbnail width and height were stored
 under each other's property

---
 models/xmp_base/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index e939097..61997fb 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -169,8 +169,8 @@ func (x *IdentifierArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Mod
 // Part 2: 1.2.2.4 Thumbnail
 type Thumbnail struct {
 	Format string `xmp:"xmpGImg:format"`
-	Width  int64  `xmp:"xmpGImg:height"`
-	Height int64  `xmp:"xmpGImg:width"`
+	Width  int64  `xmp:"xmpGImg:width"`
+	Height int64  `xmp:"xmpGImg:height"`
 	Image  []byte `xmp:"xmpGImg:image"`
 }
 
-- 
2.43.0


From 47c4f0c32b32679709fb3674519aeab1a991b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 003/107] fix: models: link the digikam model like every other
 model

---
 models/import.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/import.go b/models/import.go
index 04a1f9a..1f57798 100644
--- a/models/import.go
+++ b/models/import.go
@@ -19,6 +19,7 @@ import (
 	_ "github.com/trimmer-io/go-xmp/models/cc"
 	_ "github.com/trimmer-io/go-xmp/models/crs"
 	_ "github.com/trimmer-io/go-xmp/models/dc"
+	_ "github.com/trimmer-io/go-xmp/models/digikam"
 	_ "github.com/trimmer-io/go-xmp/models/dji"
 	_ "github.com/trimmer-io/go-xmp/models/exif"
 	_ "github.com/trimmer-io/go-xmp/models/id3"
-- 
2.43.0


From 45fd07452bb3a2e3487354b87dd7e29f8a5cd3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 004/107] fix: models: structures with a native text form were
 encoded but read back empty

---
 models/exif/types.go   | 33 +++++++++++++++++++++
 models/id3/types.go    | 66 ++++++++++++++++++++++++++++++++++++++++++
 models/itunes/types.go | 13 +++++++++
 models/qt/types.go     | 11 +++++++
 4 files changed, 123 insertions(+)

diff --git a/models/exif/types.go b/models/exif/types.go
index 3f9c9be..69f1bd8 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -203,6 +203,17 @@ func (x *OECF) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *OECF) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t OECF
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = OECF(v)
+	return nil
+}
+
 func (x OECF) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
 	type _t OECF
 	return e.EncodeElement(_t(x), node)
@@ -251,6 +262,17 @@ func (x *CFAPattern) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *CFAPattern) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t CFAPattern
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = CFAPattern(v)
+	return nil
+}
+
 func (x CFAPattern) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
 	if x.IsZero() {
 		return nil
@@ -298,6 +320,17 @@ func (x *DeviceSettings) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *DeviceSettings) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t DeviceSettings
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = DeviceSettings(v)
+	return nil
+}
+
 func (x DeviceSettings) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
 	if x.IsZero() {
 		return nil
diff --git a/models/id3/types.go b/models/id3/types.go
index 7f991dc..ec9528f 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -227,6 +227,17 @@ func (x *Owner) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *Owner) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t Owner
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = Owner(v)
+	return nil
+}
+
 // ETCO
 type Marker struct {
 	MarkerType MarkerType `xmp:"id3:type,attr"`
@@ -431,6 +442,17 @@ func (x *Reverb) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *Reverb) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t Reverb
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = Reverb(v)
+	return nil
+}
+
 // APIC
 //
 type AttachedPicture struct {
@@ -527,6 +549,17 @@ func (x *BufferSize) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *BufferSize) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t BufferSize
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = BufferSize(v)
+	return nil
+}
+
 // AENC
 //
 type AudioEncryption struct {
@@ -541,6 +574,17 @@ func (x *AudioEncryption) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *AudioEncryption) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t AudioEncryption
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = AudioEncryption(v)
+	return nil
+}
+
 // LINK
 //
 type Link struct {
@@ -593,6 +637,17 @@ func (x *Commercial) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *Commercial) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t Commercial
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = Commercial(v)
+	return nil
+}
+
 type Price struct {
 	Currency string
 	Amount   float32
@@ -733,6 +788,17 @@ func (x *AudioSeekIndex) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *AudioSeekIndex) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t AudioSeekIndex
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = AudioSeekIndex(v)
+	return nil
+}
+
 // CHAP
 //
 type Chapter xmpdm.Marker
diff --git a/models/itunes/types.go b/models/itunes/types.go
index be6b280..665b094 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -20,6 +20,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+
+	"github.com/trimmer-io/go-xmp/xmp"
 )
 
 // https://sourceforge.net/p/mediainfo/feature-requests/398/
@@ -61,6 +63,17 @@ func (x *SMPB) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *SMPB) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t SMPB
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = SMPB(v)
+	return nil
+}
+
 type Bool int // 0 no, 1 yes
 
 func (b Bool) Value() bool {
diff --git a/models/qt/types.go b/models/qt/types.go
index 2719b95..fa4a034 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -62,6 +62,17 @@ func (x *Location) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *Location) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// strip UnmarshalText method
+	type _t Location
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = Location(v)
+	return nil
+}
+
 type Point struct {
 	X int
 	Y int
-- 
2.43.0


From 105ae2f1373f8ccc514f1778ac61d4222dfe8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 005/107] fix: id3, itunes: composite fields marked as
 attributes made encoding fail

---
 models/id3/types.go        | 2 +-
 models/itunes/movieinfo.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index ec9528f..4101248 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -270,7 +270,7 @@ type TimedLyrics struct {
 	Lang   string        `xmp:"id3:lang,attr"`
 	Type   LyricsType    `xmp:"id3:type,attr"`
 	Unit   PositionType  `xmp:"id3:unit,attr"`
-	Lyrics TimedTextList `xmp:"id3:lyrics,attr"`
+	Lyrics TimedTextList `xmp:"id3:lyrics"`
 }
 
 type TimedLyricsArray []TimedLyrics
diff --git a/models/itunes/movieinfo.go b/models/itunes/movieinfo.go
index 90dca48..d679b5d 100644
--- a/models/itunes/movieinfo.go
+++ b/models/itunes/movieinfo.go
@@ -20,7 +20,7 @@ import (
 )
 
 type MovieInfo struct {
-	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo,attr"`
+	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo"`
 	Studio        string      `plist:"studio"        xmp:"iTunes:Studio,attr"`
 	Cast          PersonArray `plist:"cast"          xmp:"iTunes:Cast"`
 	Directors     PersonArray `plist:"directors"     xmp:"iTunes:Directors"`
-- 
2.43.0


From 503bd426c8fd89987e82285f8f116cf221163905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 006/107] fix: xmp_dm: marker type lists could be neither
 encoded as attribute nor decoded

---
 models/xmp_dm/types.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index da17002..2db8c1b 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -432,6 +432,26 @@ func (x MarkerList) Filter(types MarkerTypeList) MarkerList {
 
 type MarkerTypeList []MarkerType
 
+// XMP stores marker types as comma-delimited list
+func (x MarkerTypeList) MarshalText() ([]byte, error) {
+	s := make([]string, len(x))
+	for i, v := range x {
+		s[i] = string(v)
+	}
+	return []byte(strings.Join(s, ",")), nil
+}
+
+func (x *MarkerTypeList) UnmarshalText(data []byte) error {
+	l := make(MarkerTypeList, 0)
+	for _, v := range strings.Split(string(data), ",") {
+		if v = strings.TrimSpace(v); v != "" {
+			l = append(l, MarkerType(v))
+		}
+	}
+	*x = l
+	return nil
+}
+
 func (x MarkerTypeList) Intersect(y MarkerTypeList) MarkerTypeList {
 	m := make(map[MarkerType]bool)
 	for _, v := range x {
-- 
2.43.0


From e73c3e91b51b202adc5463f98757f536553ad9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 007/107] fix: exif, itunes, qt, xmp_mm: partially filled
 values were treated as empty

IsZero ignored some serialised properties, so a value that held only
those was dropped when the document was written.
---
 models/exif/types.go   | 6 +++---
 models/itunes/types.go | 2 +-
 models/qt/types.go     | 2 +-
 models/xmp_mm/types.go | 1 +
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 69f1bd8..b208f89 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -164,7 +164,7 @@ type OECF struct {
 }
 
 func (x OECF) IsZero() bool {
-	return x.Columns == 0 || x.Rows == 0
+	return x.Columns == 0 && x.Rows == 0 && len(x.Names) == 0 && len(x.Values) == 0
 }
 
 func (x *OECF) Addr() *OECF {
@@ -226,7 +226,7 @@ type CFAPattern struct {
 }
 
 func (x CFAPattern) IsZero() bool {
-	return x.Columns == 0 || x.Rows == 0
+	return x.Columns == 0 && x.Rows == 0 && len(x.Values) == 0
 }
 
 func (x *CFAPattern) Addr() *CFAPattern {
@@ -288,7 +288,7 @@ type DeviceSettings struct {
 }
 
 func (x DeviceSettings) IsZero() bool {
-	return x.Columns == 0 || x.Rows == 0
+	return x.Columns == 0 && x.Rows == 0 && len(x.Values) == 0
 }
 
 func (x *DeviceSettings) Addr() *DeviceSettings {
diff --git a/models/itunes/types.go b/models/itunes/types.go
index 665b094..8e4350a 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -88,7 +88,7 @@ type ContentRating struct {
 }
 
 func (x ContentRating) IsZero() bool {
-	return x.Standard == "" && x.Rating == ""
+	return x.Standard == "" && x.Rating == "" && x.Score == "" && x.Reasons == ""
 }
 
 func (x ContentRating) String() string {
diff --git a/models/qt/types.go b/models/qt/types.go
index fa4a034..f78dfb8 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -126,7 +126,7 @@ type ContentRating struct {
 }
 
 func (x ContentRating) IsZero() bool {
-	return x.Standard == "" && x.Rating == ""
+	return x.Standard == "" && x.Rating == "" && x.Score == "" && x.Reasons == ""
 }
 
 func (x ContentRating) String() string {
diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index 0cf33b1..104f8de 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -52,6 +52,7 @@ func (x ResourceRef) IsZero() bool {
 		x.Manager.IsZero() &&
 		x.ManagerVariant == "" &&
 		x.ManageTo == "" &&
+		x.ManageUI == "" &&
 		x.MaskMarkers == "" &&
 		x.PartMapping == "" &&
 		x.RenditionClass == "" &&
-- 
2.43.0


From 07bd1a0ec332c9c579c98b353a47ba397ce4d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 008/107] fix: xmp: node pool counters were updated without
 synchronisation

Every NewNode and Node.Close raced with those of other goroutines,
even when they worked on separate documents.
---
 xmp/dump.go | 17 +++++++++++------
 xmp/node.go |  9 +++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/xmp/dump.go b/xmp/dump.go
index 999c1a1..26ed47f 100644
--- a/xmp/dump.go
+++ b/xmp/dump.go
@@ -17,6 +17,7 @@ package xmp
 import (
 	"fmt"
 	"strings"
+	"sync/atomic"
 )
 
 func (n Node) Dump(d int) {
@@ -59,10 +60,14 @@ func (d *Document) DumpNamespaces() {
 }
 
 func DumpStats() {
-	fmt.Println("xmp: Node Pool Allocs ", npAllocs)
-	fmt.Println("xmp: Node Pool Frees  ", npFrees)
-	fmt.Println("xmp: Node Pool Hits   ", npHits)
-	fmt.Println("xmp: Node Pool Returns", npReturns)
-	fmt.Println("xmp: Node Pool InUse  ", npAllocs+npHits-npReturns-npFrees)
-	fmt.Println("xmp: Node Pool InPool ", Max64(0, npReturns-npHits))
+	allocs := atomic.LoadInt64(&npAllocs)
+	frees := atomic.LoadInt64(&npFrees)
+	hits := atomic.LoadInt64(&npHits)
+	returns := atomic.LoadInt64(&npReturns)
+	fmt.Println("xmp: Node Pool Allocs ", allocs)
+	fmt.Println("xmp: Node Pool Frees  ", frees)
+	fmt.Println("xmp: Node Pool Hits   ", hits)
+	fmt.Println("xmp: Node Pool Returns", returns)
+	fmt.Println("xmp: Node Pool InUse  ", allocs+hits-returns-frees)
+	fmt.Println("xmp: Node Pool InPool ", Max64(0, returns-hits))
 }
diff --git a/xmp/node.go b/xmp/node.go
index 8aec5eb..81a8689 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 var (
@@ -80,14 +81,14 @@ func NewNode(name xml.Name) *Node {
 	var n *Node
 	select {
 	case n = <-nodePool: // Try to get one from the nodePool
-		npHits++
+		atomic.AddInt64(&npHits, 1)
 		n.XMLName = name
 		n.Attr = nil
 		n.Nodes = nil
 		n.Model = nil
 		n.Value = ""
 	default: // All in use, create a new, temporary:
-		npAllocs++
+		atomic.AddInt64(&npAllocs, 1)
 		n = &Node{
 			XMLName: name,
 			Attr:    nil,
@@ -111,9 +112,9 @@ func (n *Node) Close() {
 	n.Value = ""
 	select {
 	case nodePool <- n: // try to put back into the nodePool
-		npReturns++
+		atomic.AddInt64(&npReturns, 1)
 	default: // pool is full, will be garbage collected
-		npFrees++
+		atomic.AddInt64(&npFrees, 1)
 	}
 }
 
-- 
2.43.0


From 2a7a2e585d07bb18baf7186ade43b29f8e970275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 009/107] fix: xmp: syncing into a namespace without model
 panicked instead of failing

---
 xmp/sync.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index 588833e..8b57da3 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -194,7 +194,12 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 			return nil
 		}
 		dModel = dNs.NewModel()
-		d.AddModel(dModel)
+		if _, err := d.AddModel(dModel); err != nil {
+			if flags&NOFAIL > 0 {
+				return nil
+			}
+			return err
+		}
 	}
 
 	sValue, err := GetModelPath(sModel, sPath)
-- 
2.43.0


From a60075e5f41e38d5f7c7eb87b09103334956d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 010/107] fix: qt, xmp_base: errors of nested operations were
 dropped

---
 models/qt/model.go       | 4 +++-
 models/xmp_base/types.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 76ebc1b..21208f0 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -168,7 +168,9 @@ func (x QtInfo) SyncToXMP(d *xmp.Document) error {
 		}
 	}
 	if x.IXML != nil {
-		d.AddModel(x.IXML)
+		if _, err := d.AddModel(x.IXML); err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index 61997fb..8369d78 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -81,7 +81,9 @@ func (x *Identifier) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) e
 		err = d.DecodeElement(&id.ID, node) // value-only from node.Value
 	} else if len(node.Nodes) == 0 {
 		err = d.DecodeElement(&id.ID, node) // value from node.Value
-		err = d.DecodeElement(&id, node)    // scheme from attr
+		if err == nil {
+			err = d.DecodeElement(&id, node) // scheme from attr
+		}
 	} else {
 		err = d.DecodeElement(&id, node.Nodes[0]) // both from child nodes
 	}
-- 
2.43.0


From 53ae3c239d969e57432020b81cef7fa56fa69d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 011/107] fix: xmp: decoding JSON produced properties in random
 order

---
 xmp/json.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 59931ce..b5f00bd 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -19,6 +19,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 )
 
@@ -250,15 +251,20 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	// build node tree from JSON models
 	root := NewNode(emptyName)
 	defer root.Close()
-	for name, b := range in.Models {
+	names := make([]string, 0, len(in.Models))
+	for name := range in.Models {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
 		node := NewNode(xml.Name{Local: name})
 		root.Nodes = append(root.Nodes, node)
 		content := make(map[string]interface{})
-		if err := json.Unmarshal(b, &content); err != nil {
+		if err := json.Unmarshal(in.Models[name], &content); err != nil {
 			return fmt.Errorf("xmp: json unmarshal model '%s' failed: %v", name, err)
 		}
-		for n, v := range content {
-			jsonToNode(n, v, node)
+		for _, n := range sortedKeys(content) {
+			jsonToNode(n, content[n], node)
 		}
 	}
 
@@ -372,7 +378,9 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			onode = NewNode(xml.Name{Local: name})
 			node.Nodes = append(node.Nodes, onode)
 		}
-		for on, ov := range v.(map[string]interface{}) {
+		ob := v.(map[string]interface{})
+		for _, on := range sortedKeys(ob) {
+			ov := ob[on]
 			if isArrayItemType(v) && on == "value" {
 				jsonToNode("", ov, onode)
 			} else {
@@ -383,6 +391,18 @@ func jsonToNode(name string, v interface{}, node *Node) {
 }
 
 // JSON unmarshal helpers
+
+// sortedKeys returns object keys in a stable order, so that decoding the
+// same JSON always produces the same document.
+func sortedKeys(m map[string]interface{}) []string {
+	keys := make([]string, 0, len(m))
+	for n := range m {
+		keys = append(keys, n)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func isSimpleValue(v interface{}) bool {
 	switch v.(type) {
 	case string, float64, bool, nil:
-- 
2.43.0


From 897cc1832e983d815af670e2f1f227343736db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 012/107] fix: xmp: namespace declarations were written in
 random order

---
 xmp/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 81a8689..8b05008 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -241,7 +241,12 @@ func (n *Node) Namespaces(d *Document) NamespaceList {
 		l = append(l, v.Namespaces(d)...)
 	}
 
-	for name, _ := range m {
+	names := make([]string, 0, len(m))
+	for name := range m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
 		ns := d.findNsByPrefix(name)
 		if ns != nil && ns != nsRDF && ns != nsXML {
 			l = append(l, ns)
-- 
2.43.0


From 5eacaf0b7f5f541b1b6ed12282b46074d1588d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 013/107] fix: xmp: a prefix used by several namespaces was
 resolved at random

---
 xmp/document.go  | 12 ++++--------
 xmp/json.go      |  9 +++++++--
 xmp/marshal.go   | 12 ++++--------
 xmp/namespace.go | 12 ++++++++++++
 xmp/unmarshal.go | 12 ++++--------
 5 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index 2c895b0..678aa0d 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -268,15 +268,11 @@ func (d Document) findNsByURI(uri string) *Namespace {
 }
 
 func (d Document) findNsByPrefix(pre string) *Namespace {
-	for _, v := range d.intNsMap {
-		if v.GetName() == pre {
-			return v
-		}
+	if ns := findPrefix(d.intNsMap, pre); ns != nil {
+		return ns
 	}
-	for _, v := range d.extNsMap {
-		if v.GetName() == pre {
-			return v
-		}
+	if ns := findPrefix(d.extNsMap, pre); ns != nil {
+		return ns
 	}
 	if ns, err := NsRegistry.GetNamespace(pre); err == nil {
 		return ns
diff --git a/xmp/json.go b/xmp/json.go
index b5f00bd..1195675 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -244,8 +244,13 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	// register namespaces
 	dec.about = in.About
 	dec.toolkit = in.Toolkit
-	for prefix, uri := range in.Namespaces {
-		dec.addNamespace(prefix, uri)
+	prefixes := make([]string, 0, len(in.Namespaces))
+	for prefix := range in.Namespaces {
+		prefixes = append(prefixes, prefix)
+	}
+	sort.Strings(prefixes)
+	for _, prefix := range prefixes {
+		dec.addNamespace(prefix, in.Namespaces[prefix])
 	}
 
 	// build node tree from JSON models
diff --git a/xmp/marshal.go b/xmp/marshal.go
index 11fcda8..842ef72 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -634,15 +634,11 @@ func (e Encoder) _findNsByURI(uri string) *Namespace {
 }
 
 func (e Encoder) _findNsByPrefix(pre string) *Namespace {
-	for _, v := range e.intNsMap {
-		if v.GetName() == pre {
-			return v
-		}
+	if ns := findPrefix(e.intNsMap, pre); ns != nil {
+		return ns
 	}
-	for _, v := range e.extNsMap {
-		if v.GetName() == pre {
-			return v
-		}
+	if ns := findPrefix(e.extNsMap, pre); ns != nil {
+		return ns
 	}
 	if ns, err := NsRegistry.GetNamespace(pre); err == nil {
 		return ns
diff --git a/xmp/namespace.go b/xmp/namespace.go
index 5b9177d..307ae27 100644
--- a/xmp/namespace.go
+++ b/xmp/namespace.go
@@ -204,6 +204,18 @@ func (l *NamespaceList) RemoveDups() NamespaceList {
 	return *l
 }
 
+// findPrefix returns the namespace using prefix pre. When several namespaces
+// share a prefix the one with the smallest URI is used.
+func findPrefix(m map[string]*Namespace, pre string) *Namespace {
+	var ns *Namespace
+	for _, v := range m {
+		if v.GetName() == pre && (ns == nil || v.GetURI() < ns.GetURI()) {
+			ns = v
+		}
+	}
+	return ns
+}
+
 func stripPrefix(n string) string {
 	if i := strings.Index(n, ":"); i > -1 {
 		return n[i+1:]
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index e64d069..4776665 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -373,15 +373,11 @@ func (d Decoder) _findNsByURI(uri string) *Namespace {
 }
 
 func (d Decoder) _findNsByPrefix(pre string) *Namespace {
-	for _, v := range d.intNsMap {
-		if v.GetName() == pre {
-			return v
-		}
+	if ns := findPrefix(d.intNsMap, pre); ns != nil {
+		return ns
 	}
-	for _, v := range d.extNsMap {
-		if v.GetName() == pre {
-			return v
-		}
+	if ns := findPrefix(d.extNsMap, pre); ns != nil {
+		return ns
 	}
 	return nil
 }
-- 
2.43.0


From 8fa0a5dfa845c28241d50474a833f434202bd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 014/107] fix: xmp: namespace listings were returned in random
 order

---
 xmp/document.go  | 2 ++
 xmp/namespace.go | 6 ++++++
 xmp/registry.go  | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/xmp/document.go b/xmp/document.go
index 678aa0d..4fea447 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -17,6 +17,7 @@ package xmp
 import (
 	"fmt"
 	"reflect"
+	"sort"
 )
 
 type Document struct {
@@ -116,6 +117,7 @@ func (d *Document) Namespaces() NamespaceList {
 	for _, v := range d.extNsMap {
 		l = append(l, v)
 	}
+	sort.Sort(byURI(l))
 	return l
 }
 
diff --git a/xmp/namespace.go b/xmp/namespace.go
index 307ae27..086d8b5 100644
--- a/xmp/namespace.go
+++ b/xmp/namespace.go
@@ -165,6 +165,12 @@ func (n Namespace) RootName() xml.Name {
 
 type NamespaceList []*Namespace
 
+type byURI NamespaceList
+
+func (l byURI) Len() int           { return len(l) }
+func (l byURI) Swap(i, j int)      { l[i], l[j] = l[j], l[i] }
+func (l byURI) Less(i, j int) bool { return l[i].GetURI() < l[j].GetURI() }
+
 func (l NamespaceList) Contains(ns *Namespace) bool {
 	if ns == nil {
 		return false
diff --git a/xmp/registry.go b/xmp/registry.go
index ee93c51..01b5adf 100644
--- a/xmp/registry.go
+++ b/xmp/registry.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 	"sync"
 )
@@ -124,6 +125,7 @@ func (r *Registry) Namespaces() NamespaceList {
 	for _, v := range r.nsUriMap {
 		l = append(l, v)
 	}
+	sort.Sort(byURI(l))
 	return l
 }
 
@@ -134,5 +136,6 @@ func (r *Registry) Prefixes() []string {
 	for n, _ := range r.nsNameMap {
 		l = append(l, n)
 	}
+	sort.Strings(l)
 	return l
 }
-- 
2.43.0


From 4bc4b1a40e66dc69d60361a9f4abb6da3aef7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 015/107] fix: xmp_mm: deleting the resource reference just
 past the end panicked

---
 models/xmp_mm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index 104f8de..dd19b01 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -81,7 +81,7 @@ func (x ResourceRefArray) Index(did xmp.GUID) int {
 }
 
 func (x *ResourceRefArray) DeleteIndex(idx int) {
-	if idx < 0 || idx > len(*x) {
+	if idx < 0 || idx >= len(*x) {
 		return
 	}
 	*x = append((*x)[:idx], ((*x)[idx+1:])...)
-- 
2.43.0


From 4d7219087bb764a71d8b1381b44575dc38f5af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 016/107] fix: xmp: alternative text without default item made
 EnsureDefault panic

---
 xmp/array.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/array.go b/xmp/array.go
index b75ab40..95e2d58 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -108,7 +108,9 @@ func (a *AltString) EnsureDefault() {
 				}
 			}
 		}
-		if idx != 0 {
+		if idx == -1 {
+			(*a)[0].IsDefault = true
+		} else if idx > 0 {
 			(*a)[idx], (*a)[0] = (*a)[0], (*a)[idx]
 		}
 	} else if l == 1 {
-- 
2.43.0


From 3c82165e3b10ed05457177d0a09eb29279b300c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 017/107] fix: xmp: reading an extension path without array
 index panicked

---
 xmp/path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 11bda49..6196931 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -335,7 +335,11 @@ func GetModelPath(v Model, path Path) (string, error) {
 		if isArray {
 			switch arr := av.Interface().(type) {
 			case ExtensionArray:
-				if walker.Len() == 0 || fv.Len() <= idx {
+				// sanitize idx (it is -1 when no array index was specified)
+				if idx < 0 {
+					idx = 0
+				}
+				if walker.Len() == 0 || len(arr) <= idx {
 					return "", errNotFound
 				}
 				ext := arr[idx]
-- 
2.43.0


From 1ab7771b3d27b9dca525e09d319d2057310a09be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 018/107] fix: xmp: scanning a packet shorter than its header
 panicked

---
 xmp/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 4b999ed..09d799f 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -67,7 +67,10 @@ var packet_end = []byte("<?xpacket end")       // plus suffix `"w"?>`
 var magic = []byte("W5M0MpCehiHzreSzNTczkc9d") // len 24
 
 func isXmpPacket(b []byte) bool {
-	return bytes.Index(b[:51], magic) > -1
+	if len(b) > 51 {
+		b = b[:51]
+	}
+	return bytes.Index(b, magic) > -1
 }
 
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
-- 
2.43.0


From 71a97700eb9bbafb2ebbbb2db84db92ef0c9c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 019/107] fix: xmp: a struct tag with an incomplete version
 range panicked

---
 xmp/typeinfo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/typeinfo.go b/xmp/typeinfo.go
index c84ba01..5e4b048 100644
--- a/xmp/typeinfo.go
+++ b/xmp/typeinfo.go
@@ -236,6 +236,9 @@ func structFieldInfo(typ reflect.Type, f *reflect.StructField, ns string) (*fiel
 					}
 				})
 				var err error
+				if len(tokens) == 0 || op == '<' && len(tokens) < 2 {
+					return nil, fmt.Errorf("invalid %s version on field %s of type %s (%q)", ns, f.Name, typ, f.Tag.Get(ns))
+				}
 				switch op {
 				case '+':
 					finfo.minVersion, err = ParseVersion(tokens[0])
-- 
2.43.0


From d62478ab62251ee6190307b5e3d62cac79d3637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 020/107] fix: exif table parsers panic on negative or huge
 column counts

---
 models/exif/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index b208f89..eb3dfe3 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -183,12 +183,12 @@ func (x *OECF) UnmarshalText(data []byte) error {
 			if o.Columns, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF columns value '%s': %v", v, err)
 			}
-			o.Names = make(xmp.StringArray, 0, o.Columns)
+			o.Names = make(xmp.StringArray, 0)
 		case i == 1:
 			if o.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
-			o.Values = make(xmp.RationalArray, 0, o.Columns*o.Rows)
+			o.Values = make(xmp.RationalArray, 0)
 		case i > 1 && i < o.Columns+1:
 			o.Names = append(o.Names, v)
 		default:
@@ -249,7 +249,7 @@ func (x *CFAPattern) UnmarshalText(data []byte) error {
 			if c.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid CFA rows value '%s': %v", v, err)
 			}
-			c.Values = make(ByteArray, 0, c.Columns*c.Rows)
+			c.Values = make(ByteArray, 0)
 		default:
 			if j, err := strconv.ParseUint(v, 10, 8); err != nil {
 				return fmt.Errorf("exif: invalid CFA value '%s': %v", v, err)
@@ -311,7 +311,7 @@ func (x *DeviceSettings) UnmarshalText(data []byte) error {
 			if s.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid device settings rows value '%s': %v", v, err)
 			}
-			s.Values = make(xmp.StringArray, 0, s.Columns*s.Rows)
+			s.Values = make(xmp.StringArray, 0)
 		default:
 			s.Values = append(s.Values, v)
 		}
-- 
2.43.0


From 6bfddcd809a386522ed8cc1a1d994fa5d92bddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 021/107] fix: ID3 v2.3 date and time sync passes a nil
 location to time.Date

---
 models/id3/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 1621a9e..2626e01 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -169,7 +169,7 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.RecordingTime.IsZero() && !x.Date_v23.IsZero() && !x.Time_v23.IsZero() {
 		_, mm, dd := x.Date_v23.Value().Date()
 		h, m, s := x.Time_v23.Value().Clock()
-		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, nil))
+		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, time.UTC))
 	}
 	if !x.RecordingTime.IsZero() {
 		base, err := xmpbase.MakeModel(d)
-- 
2.43.0


From 94c522ca2beedabaa2cf7b36116dbf9888252037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 022/107] fix: iXML timecode conversion divides by zero without
 a rate

---
 models/ixml/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index b0b69ba..8f1a769 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -151,6 +151,9 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	if rate == 0 {
 		rate = int64(x.TimecodeRate.Value() * 1000)
 	}
+	if rate == 0 {
+		return xmpdm.Timecode{}
+	}
 	sec := samples / rate
 	h := sec / 3600
 	m := (sec - h*3600) / 60
-- 
2.43.0


From bb35f7a98bebf02a60d8d7ce8e695e02774868f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 023/107] fix: a malformed array item makes the decoder panic
 instead of failing

---
 xmp/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 4776665..1953903 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -281,7 +281,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	} else {
 		// otherwise set simple value directly
 		if err := setValue(val, src.Value); err != nil {
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
 		}
 	}
 
@@ -317,7 +317,7 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) e
 		// Recur to read element into slice.
 		if err := d.unmarshalAttr(val.Index(n), nil, src); err != nil {
 			val.SetLen(n)
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.Name.Local, err)
 		}
 		return nil
 	}
-- 
2.43.0


From 561aae862ff548ee2282c0f0bb4e7ee4f9f48664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 024/107] fix: encoding a pointer property whose type marshals
 by pointer receiver panics

---
 xmp/marshal.go | 4 ++--
 xmp/native.go  | 8 ++++----
 xmp/path.go    | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 842ef72..f1cc629 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -309,7 +309,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	typ := val.Type()
 
 	// call marshaler interface
-	if val.CanInterface() && (finfo != nil && finfo.flags&fMarshal > 0 || typ.Implements(marshalerType)) {
+	if val.CanInterface() && typ.Implements(marshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalXMP on %v for %s\n", val.Type(), name)
 		return val.Interface().(Marshaler).MarshalXMP(e, node, nil)
 	}
@@ -323,7 +323,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	}
 
 	// Check for text marshaler and marshal as node value
-	if val.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+	if val.CanInterface() && typ.Implements(textMarshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalText on %v for %s\n", val.Type(), name)
 		b, err := val.Interface().(encoding.TextMarshaler).MarshalText()
 		if err != nil || b == nil {
diff --git a/xmp/native.go b/xmp/native.go
index b9c579d..3eb4f8b 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -108,7 +108,7 @@ func GetNativeField(v Model, name string) (string, error) {
 		}
 	}
 
-	if fv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+	if fv.CanInterface() && fv.Type().Implements(textMarshalerType) {
 		b, err := fv.Interface().(encoding.TextMarshaler).MarshalText()
 		if err != nil || b == nil {
 			return "", err
@@ -158,7 +158,7 @@ func SetNativeField(v Model, name, value string) error {
 		}
 	}
 
-	if f.CanInterface() && (finfo != nil && finfo.flags&fBinaryUnmarshal > 0 || f.Type().Implements(binaryUnmarshalerType)) {
+	if f.CanInterface() && f.Type().Implements(binaryUnmarshalerType) {
 		return f.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary([]byte(value))
 	}
 
@@ -169,7 +169,7 @@ func SetNativeField(v Model, name, value string) error {
 		}
 	}
 
-	if f.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || f.Type().Implements(textUnmarshalerType)) {
+	if f.CanInterface() && f.Type().Implements(textUnmarshalerType) {
 		return f.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
 	}
 
@@ -285,7 +285,7 @@ func ListNativeFields(v Model) (TagList, error) {
 		}
 
 		// Check for text marshaler and marshal as node value
-		if fv.CanInterface() && typ.Implements(textMarshalerType) {
+		if fv.CanInterface() && fv.Type().Implements(textMarshalerType) {
 			b, err := fv.Interface().(encoding.TextMarshaler).MarshalText()
 			if err != nil {
 				return nil, err
diff --git a/xmp/path.go b/xmp/path.go
index 6196931..e69eb21 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -394,7 +394,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 		// Check for text marshaler and marshal as string
 		av = fv
 		isText := false
-		if fv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+		if fv.CanInterface() && fv.Type().Implements(textMarshalerType) {
 			isText = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
@@ -1184,7 +1184,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		// Check for text marshaler and marshal as string
 		av = fv
 		isText := false
-		if fv.CanInterface() && (finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+		if fv.CanInterface() && fv.Type().Implements(textMarshalerType) {
 			isText = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
-- 
2.43.0


From e6ccf378d10e882cba885dda78f3ea2074ddc2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 025/107] fix: SetPath dereferences a nil node when adding the
 model fails

---
 xmp/path.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index e69eb21..2045ef6 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -474,10 +474,12 @@ func (d *Document) SetPath(desc PathValue) error {
 	if m == nil {
 		m = ns.NewModel()
 		if m != nil {
-			n, _ = d.AddModel(m)
+			if n, err = d.AddModel(m); err != nil {
+				return err
+			}
 		}
 	}
-	if m == nil && n == nil {
+	if n == nil {
 		n = d.nodes.AddNode(NewNode(ns.RootName()))
 	}
 
-- 
2.43.0


From b12df2c6db8a4f0770d04101bd93fceec6d2eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 026/107] fix: SetModelPath dereferences a nil node for new
 extension content

---
 xmp/path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmp/path.go b/xmp/path.go
index 2045ef6..cf9278f 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -686,6 +686,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					// Type 1: model and nodes on top-level (name not empty)
 					node = ext.FindNodeByName(name)
 					if node == nil {
+						node = (*Node)(ext).AddNode(NewNode(NewName(name)))
 						if ns, err := GetNamespace(name); err == nil {
 							node.Model = ns.NewModel()
 						}
-- 
2.43.0


From aa812cd6643f61819a9b55ddcaae1aabc91d493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 027/107] fix: GetModelPath dereferences missing field info for
 arrays of maps

---
 xmp/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index cf9278f..42d6e88 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -414,7 +414,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 
 		// handle maps
 		if fv.Kind() == reflect.Map {
-			if finfo.flags&fFlat == 0 {
+			if finfo == nil || finfo.flags&fFlat == 0 {
 				n, walker = walker.PopFront()
 				name, _, _ = parsePathSegment(n)
 			}
-- 
2.43.0


From 634b6f85ca9d8cee14d7d5231b9e3ad0f095b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 028/107] fix: alternative arrays with mistyped JSON members
 panic

---
 xmp/json.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 1195675..5aef953 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -339,10 +339,11 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			linode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
 			anode.Nodes = append(anode.Nodes, linode)
 			if typ == ArrayTypeAlternative {
-				item := av.(map[string]interface{})
-				def := item["isDefault"].(bool)
-				lang := item["lang"].(string)
-				val := item["value"].(string)
+				// missing or mistyped members read as empty
+				item, _ := av.(map[string]interface{})
+				def, _ := item["isDefault"].(bool)
+				lang, _ := item["lang"].(string)
+				val, _ := item["value"].(string)
 
 				// add single node when default || !default && lang != ""
 				if def || !def && lang != "" {
-- 
2.43.0


From 727607e39e43e1165aa0b9d0c49c49e6df6d2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 029/107] fix: SetPath keeps using a node after removing its
 namespace

---
 xmp/path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmp/path.go b/xmp/path.go
index 42d6e88..efe76e8 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -494,6 +494,7 @@ func (d *Document) SetPath(desc PathValue) error {
 	// delete model when only namespace is set
 	if path.Len() == 0 && flags&DELETE > 0 {
 		d.RemoveNamespace(ns)
+		return nil
 	}
 
 	// get current version of path value
-- 
2.43.0


From 323a362ff8bc42bfcfeb47052414736f404c7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 030/107] fix: ToString panics on pointers to pointers of
 stringer types

---
 xmp/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index f1cc629..68bf8e6 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -663,7 +663,7 @@ func ToString(t interface{}) string {
 		return ""
 	}
 	if val.Type().Implements(stringerType) {
-		return t.(fmt.Stringer).String()
+		return val.Interface().(fmt.Stringer).String()
 	}
 	if s, err := ToRawString(val.Interface()); err == nil {
 		return s
-- 
2.43.0


From 6855f15d8acb2b86a4c5cfde1edd9a072123bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 031/107] fix: packets are missed when a read ends within their
 first bytes

---
 xmp/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/reader.go b/xmp/reader.go
index 09d799f..f59cc01 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -80,6 +80,10 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		if ofs > 0 {
 			return ofs, nil, nil
 		}
+		if !atEOF {
+			// may hold the beginning of a packet, wait for more data
+			return 0, nil, nil
+		}
 		return len(data), nil, nil
 	}
 	end := bytes.Index(data[start:], packet_end)
-- 
2.43.0


From 377001b7a73cc06ed56b9f0d91683585cb40a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 032/107] fix: packets larger than 64 KB cannot be scanned

---
 xmp/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/reader.go b/xmp/reader.go
index f59cc01..7fdec99 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -41,9 +41,13 @@ func Scan(r io.Reader) (*Document, error) {
 	return x, nil
 }
 
+// upper limit for the size of a single packet
+const maxPacketSize = 1 << 28
+
 func ScanPackets(r io.Reader) ([][]byte, error) {
 	packets := make([][]byte, 0)
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, maxPacketSize)
 	s.Split(splitPacket)
 	for s.Scan() {
 		b := s.Bytes()
-- 
2.43.0


From f6f279a6789953adf95adbe9c423da7d0ff27084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 033/107] fix: removing a list item duplicates items and drops
 the tail

---
 models/xmp_base/types.go | 2 +-
 xmp/array.go             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index 8369d78..419fa69 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -152,7 +152,7 @@ func (x *IdentifierArray) Index(val string) int {
 
 func (x *IdentifierArray) Remove(v string) {
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
diff --git a/xmp/array.go b/xmp/array.go
index 95e2d58..92889e8 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -397,7 +397,7 @@ func (x *StringList) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -501,7 +501,7 @@ func (x *StringArray) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
-- 
2.43.0


From 101bdbb9bb192914c3fa5cbe5e459a9bd8c39261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 034/107] fix: text values of named extensions are lost,
 attributes written twice

---
 xmp/xmp_ext.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 88a513b..e4db734 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -181,9 +181,14 @@ func (x *NamedExtensionArray) FindNodeByName(name string) *Node {
 func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 	for _, v := range x {
 		ext := NewNode(NewName(v.XMLName.Local))
-		ext.AddAttr(rdfResourceAttr)
+		ext.Value = v.Value
+		if v.Value == "" {
+			ext.AddAttr(rdfResourceAttr)
+		}
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
-		ext.Attr = append(ext.Attr, v.Attr...)
+		for _, a := range v.Attr {
+			ext.AddAttr(a)
+		}
 		node.AddNode(ext)
 	}
 	return nil
@@ -193,6 +198,7 @@ func (x *NamedExtensionArray) UnmarshalXMP(d *Decoder, node *Node, m Model) erro
 	for _, v := range node.Nodes {
 		v.translate(d)
 		ext := (*Extension)(NewNode(NewName(v.XMLName.Local)))
+		ext.Value = v.Value
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
 		ext.Attr = append(ext.Attr, v.Attr...)
 		*x = append(*x, ext)
-- 
2.43.0


From dbaa0f1e0bc89dd8e97a9d9ef10aab1e7351d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 035/107] fix: keep the toolkit name read from x:xmptk

Decode stored the toolkit in the document and then overwrote it with the
decoder's own, always empty, toolkit field.
---
 xmp/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 1953903..ef89968 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -85,7 +85,7 @@ func (d *Decoder) Decode(x *Document) error {
 	// 2  skip top-level `x:xmpmeta` (optional) and `rdf:RDF` nodes
 	if root.FullName() == "x:xmpmeta" {
 		if a := root.GetAttr(nsX.GetURI(), "xmptk"); len(a) > 0 {
-			x.toolkit = strings.TrimSpace(a[0].Value)
+			d.toolkit = strings.TrimSpace(a[0].Value)
 		}
 		if len(root.Nodes) == 0 {
 			return fmt.Errorf("xmp: invalid XML format: missing rdf:RDF node")
-- 
2.43.0


From 44425090bc75e1bd656a25bccb2d52a952e883f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 036/107] fix: do not share nodes between documents read by one
 decoder

A second call to Decode continued with the node list and namespace maps
of the first, so both documents ended up with the same models.
---
 xmp/unmarshal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index ef89968..34e3272 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -74,6 +74,13 @@ func (d *Decoder) Decode(x *Document) error {
 		return nil
 	}
 
+	// start each document with an empty state, a decoder may read more than one
+	d.toolkit = ""
+	d.about = ""
+	d.nodes = make(NodeList, 0)
+	d.intNsMap = make(map[string]*Namespace)
+	d.extNsMap = make(map[string]*Namespace)
+
 	// 1  parse node tree from XML
 	root := NewNode(emptyName)
 	gc := root
-- 
2.43.0


From 2267f8f4fdd6d3a7f141f99e2e4a133774b5be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 037/107] fix: keep all text of an element split by comments or
 CDATA sections

---
 xmp/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8b05008..4f44e2a 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -372,6 +372,7 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 
 func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	var nodes []*Node
+	var text []byte
 	var done bool
 	for !done {
 		t, err := d.Token()
@@ -380,7 +381,8 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 		switch t := t.(type) {
 		case xml.CharData:
-			n.Value = strings.TrimSpace(string(t))
+			// comments and CDATA sections split text into multiple tokens
+			text = append(text, t...)
 		case xml.StartElement:
 			x := NewNode(emptyName)
 			x.UnmarshalXML(d, t)
@@ -391,6 +393,7 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	}
 	n.XMLName = start.Name
 	n.Attr.From(start.Attr)
+	n.Value = strings.TrimSpace(string(text))
 	n.Nodes = nodes
 	return nil
 }
-- 
2.43.0


From 107b584c5ac6f1134d41300dfd12b529a4e99d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 038/107] fix: read array properties held in plain Go slices

The encoder writes slices without a marshaler as RDF arrays, but the
decoder dropped such arrays without an error.
---
 xmp/unmarshal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 34e3272..aceb595 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -246,6 +246,12 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		}
 	}
 
+	// XMP arrays, the counterpart to transparently marshalled arrays
+	kind := val.Kind()
+	if (kind == reflect.Slice || kind == reflect.Array) && val.Type().Elem().Kind() != reflect.Uint8 && val.CanAddr() {
+		return UnmarshalArray(d, src, ArrayTypeOrdered, val.Addr().Interface())
+	}
+
 	// structs
 	if val.Kind() == reflect.Struct {
 		// process attributes first
@@ -512,9 +518,10 @@ func setValue(dst reflect.Value, src string) error {
 		dst.SetString(strings.TrimSpace(src))
 	case reflect.Slice:
 		// make sure it's a byte slice
-		if dst.Type().Elem().Kind() == reflect.Uint8 {
-			dst.SetBytes([]byte(src))
+		if dst.Type().Elem().Kind() != reflect.Uint8 {
+			return fmt.Errorf("xmp: no method for unmarshalling type %s", dst0.Type().String())
 		}
+		dst.SetBytes([]byte(src))
 	default:
 		return fmt.Errorf("xmp: no method for unmarshalling type %s", dst0.Type().String())
 	}
-- 
2.43.0


From f4c830eb8b7c6c0cd1df6eacfef89c509a05a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 039/107] fix: read URIs given as rdf:resource

Attributes carry the namespace URI, so looking for the prefix never matched.
---
 xmp/xmp_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 7c2a014..82e0426 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -451,7 +451,7 @@ func NewUri(u string) Uri {
 // }
 
 func (x *Uri) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
-	if attr := node.GetAttr("rdf", "resource"); len(attr) > 0 {
+	if attr := node.GetAttr("", "resource"); len(attr) > 0 {
 		*x = Uri(attr[0].Value)
 		return nil
 	}
-- 
2.43.0


From af7d621f3c3ceecc78e9fa838047837e81246fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 040/107] fix: keep tag lists when reading a document from JSON

---
 xmp/native.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index 3eb4f8b..5656ec1 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -49,19 +49,27 @@ func (x TagList) MarshalXMP(e *Encoder, node *Node, m Model) error {
 
 func (x *TagList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 	for _, v := range node.Attr {
-		tag := Tag{
-			Key:   v.Name.Local,
-			Value: v.Value,
-		}
-		if i := strings.Index(tag.Key, "-"); i > -1 {
-			// FIXME: parsing would be better here
-			tag.Key, tag.Lang = tag.Key[:i], tag.Key[i+1:]
-		}
-		*x = append(*x, tag)
+		x.addTag(v.Name.Local, v.Value)
+	}
+	// tags read from JSON arrive as child nodes
+	for _, v := range node.Nodes {
+		x.addTag(v.XMLName.Local, v.Value)
 	}
 	return nil
 }
 
+func (x *TagList) addTag(key, value string) {
+	tag := Tag{
+		Key:   key,
+		Value: value,
+	}
+	if i := strings.Index(tag.Key, "-"); i > -1 {
+		// FIXME: parsing would be better here
+		tag.Key, tag.Lang = tag.Key[:i], tag.Key[i+1:]
+	}
+	*x = append(*x, tag)
+}
+
 func GetNativeField(v Model, name string) (string, error) {
 	nsName, err := getNamespaceName(v)
 	if err != nil {
-- 
2.43.0


From 65e65a975f9cf208799a785f4ebd57ad1281ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 041/107] fix: write attributes and raw elements of extensions,
 never Go model fields

---
 xmp/xmp_ext.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index e4db734..f517ca7 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -49,25 +49,38 @@ func (x *Extension) FindNodeByName(name string) *Node {
 
 func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 	for _, ext := range x.Nodes {
-		if ext.Model != nil {
-			if err := e.EncodeElement(ext.Model, node); err != nil {
-				return err
-			}
+		// plain elements have no extra layer
+		if ext.Model == nil && (x.XMLName.Local != "" || hasPrefix(ext.XMLName.Local)) {
+			node.Nodes = append(node.Nodes, copyNode(ext))
+			continue
 		}
 
 		// unwrap one extra layer that we keep for identifying extensions
-		if x.XMLName.Local == "" {
-			for _, child := range ext.Nodes {
-				if child.Model != nil {
-					if err := e.EncodeElement(child.Model, node); err != nil {
-						return err
-					}
-				} else {
-					node.Nodes = append(node.Nodes, copyNode(child))
-				}
-			}
-		} else {
-			node.Nodes = append(node.Nodes, copyNode(ext))
+		if err := e.marshalExtension(node, ext); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// marshalExtension writes the contents of src, i.e. model, attributes and child
+// nodes, but not src itself.
+func (e *Encoder) marshalExtension(node, src *Node) error {
+	if src.Model != nil {
+		if err := e.EncodeElement(src.Model, node); err != nil {
+			return err
+		}
+	}
+	for _, a := range src.Attr {
+		node.AddAttr(a)
+	}
+	for _, child := range src.Nodes {
+		if child.Model == nil {
+			node.Nodes = append(node.Nodes, copyNode(child))
+			continue
+		}
+		if err := e.marshalExtension(node, child); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From cc124ca57df7542a6e836bface13feebca7204b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 042/107] fix: Node.SetPath updates the attribute itself
 instead of a copy of it

---
 xmp/node.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 4f44e2a..3a513b3 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -465,16 +465,20 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	}
 
 	// handle attribute
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
+	for i := range n.Attr {
+		if name == "" || stripPrefix(n.Attr[i].Name.Local) != stripPrefix(name) {
+			continue
+		}
 		switch {
 		case flags&REPLACE > 0 && value != "":
-			attr[0].Value = value
+			n.Attr[i].Value = value
 			return nil
 		case flags&DELETE > 0 && value == "":
-			attr[0].Value = value
+			n.Attr[i].Value = value
 			// will be ignored on next marshal
 			return nil
 		}
+		break
 	}
 
 	// handle nodes
-- 
2.43.0


From 7fb31ae2393f038d3202f0c08d44eed2050de6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 043/107] fix: Node.SetPath adds the entry of a language that
 is not present yet

---
 xmp/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/node.go b/xmp/node.go
index 3a513b3..4190ec8 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -606,6 +606,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 					}
 				}
 			}
+			li := arr.AppendNode(NewNode(NewName("rdf:li")))
+			li.AddStringAttr("xml:lang", lang)
+			li.Value = value
 
 		case flags&(REPLACE|CREATE) > 0 && value != "" && lang == "":
 			// replace entire AltString with a new version
-- 
2.43.0


From 964a52af9612e46aaa5156c778575116cdd2245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 044/107] fix: Node.SetPath does not overwrite an existing
 value without the REPLACE flag

---
 xmp/node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmp/node.go b/xmp/node.go
index 4190ec8..7f6e6ec 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -642,6 +642,8 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		}
 		// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name)
 		switch {
+		case flags&REPLACE == 0 && value != "" && node.Value != "":
+			return fmt.Errorf("REPLACE flag required for overwriting value at '%s'", name)
 		case flags&(REPLACE|CREATE) > 0 && value != "":
 			node.Value = value
 			return nil
-- 
2.43.0


From 2563a8bf7d6c3e2991ec228d1aa07efcfaeca3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 045/107] fix: Document.SetPath removes a namespace only when
 no value is given

---
 xmp/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index efe76e8..1a1639c 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -492,7 +492,7 @@ func (d *Document) SetPath(desc PathValue) error {
 	}
 
 	// delete model when only namespace is set
-	if path.Len() == 0 && flags&DELETE > 0 {
+	if path.Len() == 0 && flags&DELETE > 0 && value == "" {
 		d.RemoveNamespace(ns)
 		return nil
 	}
-- 
2.43.0


From a6957be6609afe1c92718ca2ed11c1605f2eea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 046/107] fix: SetModelPath reports flags that cannot be
 applied to an AltString

---
 xmp/path.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 1a1639c..2b1622c 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -764,6 +764,8 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					} else {
 						fv.Set(reflect.Zero(fv.Type()))
 					}
+				default:
+					return fmt.Errorf("unsupported flag combination %v", flags)
 				}
 				return nil
 
-- 
2.43.0


From 89c16f79fd11a20569a48713fe0dca2226f4427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 047/107] fix: SetModelPath with DELETE removes the map entry
 instead of clearing its value

---
 xmp/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 2b1622c..f457bce 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -609,7 +609,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			switch {
 			case flags&DELETE > 0 && value == "":
 				// remove map value
-				fv.SetMapIndex(reflect.ValueOf(name), reflect.Zero(t.Elem()))
+				fv.SetMapIndex(reflect.ValueOf(name), reflect.Value{})
 				return nil
 			case flags&(REPLACE|CREATE) > 0 && value != "":
 				// set map value
-- 
2.43.0


From 8e7e65eee0576c52ee994209f2285ed803cd29da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 048/107] fix: SetModelPath keeps what it sets in struct-valued
 map entries

---
 xmp/path.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index f457bce..06b0424 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -617,10 +617,13 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 				case reflect.String:
 					fv.SetMapIndex(reflect.ValueOf(name), reflect.ValueOf(value).Convert(t.Elem()))
 				case reflect.Struct:
+					// map values are not addressable: change a copy and store
+					// it when the remaining path is done
 					val = reflect.New(t.Elem()).Elem()
-					// FIXME: this recursion may not work as expected because the map
-					// value is not updated when set later on
-					fv.SetMapIndex(reflect.ValueOf(name), val)
+					if cur := fv.MapIndex(reflect.ValueOf(name)); cur.IsValid() {
+						val.Set(cur)
+					}
+					defer fv.SetMapIndex(reflect.ValueOf(name), val)
 					continue
 				default:
 					// FIXME: this does not allow for struct pointers as map values
-- 
2.43.0


From 49de6c75d9116879eab1ad9278d846762524f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 049/107] fix: SetModelPath reports flags that cannot be
 applied to a map

---
 xmp/path.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 06b0424..50f2d9b 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -650,6 +650,8 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					fv.SetMapIndex(reflect.ValueOf(name), mval)
 					return nil
 				}
+			default:
+				return fmt.Errorf("unsupported flag combination %v", flags)
 			}
 			continue
 		}
-- 
2.43.0


From d6b94aa12ab798f92584d55204cc357da4d5b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 050/107] fix: SetModelPath adds a unique value to an array
 that holds an empty one

---
 xmp/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 50f2d9b..4f48fae 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -873,7 +873,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 						if isText {
 							b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-							if err != nil || b == nil {
+							if err != nil {
 								return err
 							}
 							if value == string(b) {
-- 
2.43.0


From 4a9b9156e81b2d6d2b788c6a403aaf72fa3e5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 051/107] fix: Node.SetPath reports a path with an empty name
 instead of ignoring it

---
 xmp/node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 7f6e6ec..77f8766 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -458,9 +458,10 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 
 	// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s rest=%v idx=%d lang=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name, path, idx, lang)
 	if name == "" && idx == -1 && lang == "" {
-		if path.Len() == 0 {
-			n.Value = value
+		if path.Len() > 0 {
+			return fmt.Errorf("path field '%s': empty name", path.String())
 		}
+		n.Value = value
 		return nil
 	}
 
-- 
2.43.0


From fdbe05e1fed5b578789fad24efd94172e0f25173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 052/107] fix: SetModelPath sets map entries of simple types to
 the value given

---
 xmp/path.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 4f48fae..46b723a 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -635,12 +635,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 						if err := mval.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
 							return err
 						}
-					} else if mval.CanAddr() {
-						pv := mval.Addr()
-						if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
-							if err := pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-								return err
-							}
+					} else if pv := mval.Addr(); pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
+						if err := pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
+							return err
 						}
 					} else {
 						if err := setValue(mval, value); err != nil {
-- 
2.43.0


From 983d56bbaceffbfdb25892e5a9155f1e18327a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 053/107] fix: itunes: read the parts of a content rating in
 the order they are written

---
 models/itunes/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index 8e4350a..959ed84 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -112,13 +112,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
-- 
2.43.0


From 753a1d8aef14fe72cd7128b0803c3f000ccf32fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 054/107] fix: qt: read the parts of a content rating in the
 order they are written

---
 models/qt/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/qt/types.go b/models/qt/types.go
index f78dfb8..838405d 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -150,13 +150,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
-- 
2.43.0


From c25600ecf9b4a5563c64e35b2244e87fadc33129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:37 +0000
Subject: [PATCH 055/107] fix: xmp_dm: non-drop 59.94 fps has its own timecode
 format

---
 models/xmp_dm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 2db8c1b..291b7c6 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -587,7 +587,7 @@ func ParseTimecodeFormat(f float64, isdrop bool) TimecodeFormat {
 		if isdrop {
 			return TimecodeFormat5994
 		} else {
-			return TimecodeFormat5994
+			return TimecodeFormat5994ND
 		}
 	case f == 60:
 		return TimecodeFormat60
-- 
2.43.0


From 568f180942383bc56fc549e7a88d77e66253bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 056/107] fix: GetLocaleField: report a property that is no
 language alternative instead of panicking

---
 xmp/native.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/native.go b/xmp/native.go
index 5656ec1..da4152a 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -236,7 +236,7 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 
 	f := finfo.value(val)
 
-	if f.Kind() != reflect.Slice && f.Type().Elem() != reflect.TypeOf(AltItem{}) {
+	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
 		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
 	}
 
-- 
2.43.0


From 0120ffb925cd008362675e4517455a8775153a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 057/107] fix: native fields: convert simple values by their
 own type

---
 xmp/native.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index da4152a..0cfedd6 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -83,7 +83,6 @@ func GetNativeField(v Model, name string) (string, error) {
 	}
 
 	fv := finfo.value(val)
-	typ := fv.Type()
 
 	if !fv.IsValid() {
 		return "", nil
@@ -126,7 +125,7 @@ func GetNativeField(v Model, name string) (string, error) {
 
 	// simple values are just fine, but any other type (slice, array, struct)
 	// without textmarshaler will fail
-	if s, b, err := marshalSimple(typ, fv); err != nil {
+	if s, b, err := marshalSimple(fv.Type(), fv); err != nil {
 		return "", err
 	} else {
 		if b != nil {
@@ -340,7 +339,7 @@ func ListNativeFields(v Model) (TagList, error) {
 
 		// simple values are just fine, but any other type (slice, array, struct)
 		// without textmarshaler will fail here
-		if s, b, err := marshalSimple(typ, fv); err != nil {
+		if s, b, err := marshalSimple(fv.Type(), fv); err != nil {
 			return nil, err
 		} else {
 			if b != nil {
-- 
2.43.0


From 1aca4f1c53c46b991a72184873ed663c88653db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 058/107] fix: native fields: treat a pointer to a nil pointer
 as empty

---
 xmp/native.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index 0cfedd6..24687eb 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -99,9 +99,12 @@ func GetNativeField(v Model, name string) (string, error) {
 	// Drill into interfaces and pointers.
 	// This can turn into an infinite loop given a cyclic chain,
 	// but it matches the Go 1 behavior.
-	for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
+	for (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr) && !fv.IsNil() {
 		fv = fv.Elem()
 	}
+	if fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
+		return "", nil
+	}
 
 	// Check for text marshaler and marshal as node value
 	if fv.CanAddr() {
@@ -283,9 +286,12 @@ func ListNativeFields(v Model) (TagList, error) {
 		// Drill into interfaces and pointers.
 		// This can turn into an infinite loop given a cyclic chain,
 		// but it matches the Go 1 behavior.
-		for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
+		for (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr) && !fv.IsNil() {
 			fv = fv.Elem()
 		}
+		if fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
+			continue
+		}
 
 		tag := Tag{
 			Key: finfo.name,
-- 
2.43.0


From 2048b4c035fd88bd4f2ae6c17f81847c16886fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 059/107] fix: paths: treat a pointer to a nil pointer as empty

---
 xmp/path.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 46b723a..d212455 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -310,6 +310,9 @@ func GetModelPath(v Model, path Path) (string, error) {
 
 		// Drill into interfaces and pointers.
 		for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
+			if fv.IsNil() {
+				return "", nil
+			}
 			fv = fv.Elem()
 		}
 
@@ -1070,9 +1073,12 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		}
 
 		// Drill into interfaces and pointers.
-		for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
+		for (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr) && !fv.IsNil() {
 			fv = fv.Elem()
 		}
+		if fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
+			continue
+		}
 		typ = fv.Type()
 
 		// handle XMP array types
-- 
2.43.0


From fdd87c920043168b475ca99e01c0eb232bc48397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:48 +0000
Subject: [PATCH 060/107] fix: GetModelPath: convert simple values by their own
 type

---
 xmp/path.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index d212455..8ece779 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -295,7 +295,6 @@ func GetModelPath(v Model, path Path) (string, error) {
 		}
 
 		fv := finfo.value(val)
-		typ := fv.Type()
 
 		// ignore empty fields
 		if !fv.IsValid() {
@@ -325,7 +324,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 		// handle XMP array types
 		av := fv
 		isArray := false
-		if fv.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || typ.Implements(arrayType)) {
+		if fv.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || fv.Type().Implements(arrayType)) {
 			isArray = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
@@ -388,7 +387,6 @@ func GetModelPath(v Model, path Path) (string, error) {
 						return "", errNotFound
 					}
 					fv = derefValue(av.Index(idx))
-					typ = fv.Type()
 					finfo = nil
 				}
 			}
@@ -427,12 +425,11 @@ func GetModelPath(v Model, path Path) (string, error) {
 			}
 			// process as simple value below
 			fv = val
-			typ = val.Type()
 		}
 
 		// simple values are just fine, but any other type (slice, array, struct)
 		// without textmarshaler will fail here
-		if s, b, err := marshalSimple(typ, fv); err != nil {
+		if s, b, err := marshalSimple(fv.Type(), fv); err != nil {
 			return "", err
 		} else {
 			if b != nil {
-- 
2.43.0


From 19670f1b94c3cdbfb132452d27df6c4af54559cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 061/107] fix: paths: read arrays that implement Array on their
 pointer type

---
 xmp/path.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 8ece779..9a37f4d 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -369,13 +369,12 @@ func GetModelPath(v Model, path Path) (string, error) {
 				}
 				return arr.Default(), nil
 			default:
+				// deref the pointer
+				av = reflect.Indirect(av)
 				// sanitize array index
 				if idx < 0 {
 					idx = 0
 				}
-				if fv.Len() < idx {
-					return "", errNotFound
-				}
 				if walker.Len() > 0 {
 					if av.Len() <= idx {
 						return "", errNotFound
@@ -1145,6 +1144,8 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 					pvl.Add(path.Push(fname).AppendIndexString(v.GetLang()), v.Value)
 				}
 			default:
+				// deref the pointer
+				av = reflect.Indirect(av)
 				for i, l := 0, av.Len(); i < l; i++ {
 					v := derefValue(av.Index(i))
 
-- 
2.43.0


From 9af30fec06904d6a1ff9e7721dbcc96509865a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:03 +0000
Subject: [PATCH 062/107] fix: paths: look up map values by a key of the map's
 own key type

---
 xmp/path.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 9a37f4d..00832f4 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -418,7 +418,10 @@ func GetModelPath(v Model, path Path) (string, error) {
 				n, walker = walker.PopFront()
 				name, _, _ = parsePathSegment(n)
 			}
-			val := fv.MapIndex(reflect.ValueOf(name))
+			if fv.Type().Key().Kind() != reflect.String {
+				return "", fmt.Errorf("map key type must be string")
+			}
+			val := fv.MapIndex(reflect.ValueOf(name).Convert(fv.Type().Key()))
 			if !val.IsValid() {
 				return "", errNotFound
 			}
@@ -608,21 +611,21 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			switch {
 			case flags&DELETE > 0 && value == "":
 				// remove map value
-				fv.SetMapIndex(reflect.ValueOf(name), reflect.Value{})
+				fv.SetMapIndex(reflect.ValueOf(name).Convert(t.Key()), reflect.Value{})
 				return nil
 			case flags&(REPLACE|CREATE) > 0 && value != "":
 				// set map value
 				switch t.Elem().Kind() {
 				case reflect.String:
-					fv.SetMapIndex(reflect.ValueOf(name), reflect.ValueOf(value).Convert(t.Elem()))
+					fv.SetMapIndex(reflect.ValueOf(name).Convert(t.Key()), reflect.ValueOf(value).Convert(t.Elem()))
 				case reflect.Struct:
 					// map values are not addressable: change a copy and store
 					// it when the remaining path is done
 					val = reflect.New(t.Elem()).Elem()
-					if cur := fv.MapIndex(reflect.ValueOf(name)); cur.IsValid() {
+					if cur := fv.MapIndex(reflect.ValueOf(name).Convert(fv.Type().Key())); cur.IsValid() {
 						val.Set(cur)
 					}
-					defer fv.SetMapIndex(reflect.ValueOf(name), val)
+					defer fv.SetMapIndex(reflect.ValueOf(name).Convert(t.Key()), val)
 					continue
 				default:
 					// FIXME: this does not allow for struct pointers as map values
@@ -643,7 +646,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 							return err
 						}
 					}
-					fv.SetMapIndex(reflect.ValueOf(name), mval)
+					fv.SetMapIndex(reflect.ValueOf(name).Convert(t.Key()), mval)
 					return nil
 				}
 			default:
-- 
2.43.0


From 43a7c4f10756aacac67898c5b68ed825b7b0f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 063/107] fix: MarshalArray: report a nil list instead of
 panicking

---
 xmp/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/array.go b/xmp/array.go
index 92889e8..027ef45 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -536,7 +536,7 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 	kind := val.Kind()
 
 	if kind != reflect.Slice && kind != reflect.Array {
-		return fmt.Errorf("xmp: non-slice type passed to array marshal: %v %v", val.Type(), kind)
+		return fmt.Errorf("xmp: non-slice type passed to array marshal: %T %v", items, kind)
 	}
 
 	if val.Len() == 0 {
-- 
2.43.0


From 0cc4b92e794c77267711ad3a65bad8a7ffeec6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:13 +0000
Subject: [PATCH 064/107] fix: ToRawString: report a nil value instead of
 panicking

---
 xmp/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 68bf8e6..c10016b 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -678,6 +678,9 @@ func isBase64(s string) bool {
 
 func ToRawString(t interface{}) (string, error) {
 	val := reflect.Indirect(reflect.ValueOf(t))
+	if !val.IsValid() {
+		return "", fmt.Errorf("xmp: no method for converting nil %T to string", t)
+	}
 	typ := val.Type()
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From 4500d8e3ab8bce28e853f1f32418ef46baa1b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 065/107] fix: convert arrays of a named byte type

---
 xmp/marshal.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index c10016b..e0f8d54 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -610,7 +610,9 @@ func marshalSimple(typ reflect.Type, val reflect.Value) (string, []byte, error)
 			bytes = val.Slice(0, val.Len()).Bytes()
 		} else {
 			bytes = make([]byte, val.Len())
-			reflect.Copy(reflect.ValueOf(bytes), val)
+			for i := range bytes {
+				bytes[i] = byte(val.Index(i).Uint())
+			}
 		}
 		return "", bytes, nil
 	case reflect.Slice:
@@ -703,7 +705,9 @@ func ToRawString(t interface{}) (string, error) {
 			b = val.Slice(0, val.Len()).Bytes()
 		} else {
 			b = make([]byte, val.Len())
-			reflect.Copy(reflect.ValueOf(b), val)
+			for i := range b {
+				b[i] = byte(val.Index(i).Uint())
+			}
 		}
 		if !isBase64(string(b)) {
 			return base64.StdEncoding.EncodeToString(b), nil
-- 
2.43.0


From 6b163659a74df578f9fb659b3399f0451f58c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 066/107] fix: exif: CanTag accepts the tags GetTag and SetTag
 accept

---
 models/exif/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/exif/model.go b/models/exif/model.go
index f1d5308..f6644cf 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -376,6 +376,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ExifInfo) CanTag(tag string) bool {
+	tag = strings.ToLower(tag)
 	_, err := xmp.GetNativeField(x, tag)
 	return err == nil
 }
-- 
2.43.0


From ecab3c875de42f1e2e1e002bbf789c3a04ffe4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:51 +0000
Subject: [PATCH 067/107] fix: id3: SetLocaleTag accepts the v1 and v2.2 tags
 GetLocaleTag accepts

---
 models/id3/model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 2626e01..cc368ec 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -479,7 +479,11 @@ func (x *ID3) GetLocaleTag(lang string, tag string) (string, error) {
 }
 
 func (x *ID3) SetLocaleTag(lang string, tag, value string) error {
-	if err := xmp.SetLocaleField(x, lang, tag, value); err != nil {
+	t, err := mapTagToV24(tag)
+	if err != nil {
+		return err
+	}
+	if err := xmp.SetLocaleField(x, lang, t, value); err != nil {
 		return fmt.Errorf("%s: %v", NsID3.GetName(), err)
 	}
 	return nil
-- 
2.43.0


From 2f0da54f89e16735de96758081cee78ee55a2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 068/107] fix: qt: CanTag recognises tags by their prefix

---
 models/qt/model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 21208f0..1bdcd37 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -181,13 +181,13 @@ func (x *QtInfo) CanTag(tag string) bool {
 		v := &QtUserdata{}
 		_, err := xmp.GetNativeField(v, tag)
 		return err == nil
-	case strings.HasPrefix("com.apple.quicktime.player", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
 		v := &QtPlayer{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.quicktime", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime"):
 		v := &QtMetadata{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.proapps", tag):
+	case strings.HasPrefix(tag, "com.apple.proapps"):
 		v := &QtProApps{}
 		return v.CanTag(tag)
 	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
-- 
2.43.0


From 7457356975c9e5aaaafdc45f2469807bce309665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 069/107] fix: qt: embedded iXML and XMP documents are
 recognised by their four-character tags

---
 models/qt/model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 1bdcd37..adb44b1 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -177,6 +177,8 @@ func (x QtInfo) SyncToXMP(d *xmp.Document) error {
 
 func (x *QtInfo) CanTag(tag string) bool {
 	switch {
+	case tag == "XMP_" || tag == "iXML":
+		return true
 	case len(tag) == 4:
 		v := &QtUserdata{}
 		_, err := xmp.GetNativeField(v, tag)
@@ -190,7 +192,7 @@ func (x *QtInfo) CanTag(tag string) bool {
 	case strings.HasPrefix(tag, "com.apple.proapps"):
 		v := &QtProApps{}
 		return v.CanTag(tag)
-	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+	case tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
 		return true
 	}
 	return false
@@ -240,7 +242,7 @@ func (x *QtInfo) GetTag(tag string) (string, error) {
 
 func (x *QtInfo) SetTag(tag, value string) error {
 	switch {
-	case len(tag) == 4:
+	case len(tag) == 4 && tag != "XMP_" && tag != "iXML":
 		if x.Udta == nil {
 			x.Udta = &QtUserdata{}
 		}
-- 
2.43.0


From 1bbff2ecc4a0d505f1789c35aa97dbc1f4749f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 070/107] fix: qt: GetTag reads the embedded iXML and XMP
 documents that SetTag stores

---
 models/qt/model.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/models/qt/model.go b/models/qt/model.go
index adb44b1..4ed5fb8 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -52,6 +52,7 @@
 package qt
 
 import (
+	"encoding/xml"
 	"fmt"
 	"strings"
 
@@ -200,6 +201,24 @@ func (x *QtInfo) CanTag(tag string) bool {
 
 func (x *QtInfo) GetTag(tag string) (string, error) {
 	switch {
+	case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+		if x.IXML == nil {
+			return "", nil
+		}
+		if b, err := xml.Marshal(x.IXML); err != nil {
+			return "", fmt.Errorf("%s: writing ixml: %v", NsQuicktime.GetName(), err)
+		} else {
+			return string(b), nil
+		}
+	case tag == "XMP_":
+		if x.XMP == nil {
+			return "", nil
+		}
+		if b, err := xmp.Marshal(x.XMP); err != nil {
+			return "", fmt.Errorf("%s: writing embedded xmp: %v", NsQuicktime.GetName(), err)
+		} else {
+			return string(b), nil
+		}
 	case len(tag) == 4:
 		if x.Udta == nil {
 			return "", nil
-- 
2.43.0


From 7f8c55aecf44c12364df1febd554e2cfb08b84f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 071/107] fix: keep YCbCrSubSampling values with a single item

IsZero reported every list with fewer than two items as empty, so that such a
value was dropped when the document was written.
---
 models/tiff/types.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/models/tiff/types.go b/models/tiff/types.go
index d727dd2..a22d537 100644
--- a/models/tiff/types.go
+++ b/models/tiff/types.go
@@ -48,7 +48,12 @@ func (x YCbCrSubSampling) String() string {
 }
 
 func (x YCbCrSubSampling) IsZero() bool {
-	return len(x) < 2 || (x[0] == 0 && x[1] == 0)
+	for _, v := range x {
+		if v != 0 {
+			return false
+		}
+	}
+	return true
 }
 
 func (x YCbCrSubSampling) Typ() xmp.ArrayType {
-- 
2.43.0


From d8cc822b850762c177e3753df648d499ed36c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 072/107] fix: SplitInt: parse unsigned parts, do not wrap
 negative numbers

---
 xmp/units.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 31f3c82..00fcda0 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -109,12 +109,12 @@ func (x *SplitInt) UnmarshalText(data []byte) error {
 		return nil
 	default:
 		// parse integer
-		if i, err := strconv.ParseInt(d, 10, 32); err == nil {
+		if i, err := strconv.ParseUint(d, 10, 32); err == nil {
 			*x = SplitInt(i)
 		} else if f := strings.Split(d, ":"); len(f) == 4 {
 			var u uint32
 			for i := 0; i < 4; i++ {
-				if v, err := strconv.ParseInt(f[i], 10, 8); err != nil {
+				if v, err := strconv.ParseUint(f[i], 10, 8); err != nil {
 					return fmt.Errorf("xmp: parsing SplitInt '%s': invalid syntax", d)
 				} else {
 					u += uint32(v) << uint32((3-i)*8)
-- 
2.43.0


From 256683763394b67a717bc554b115e47b8663d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 073/107] fix: Duration: refuse seconds that overflow instead
 of wrapping around

---
 xmp/units.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xmp/units.go b/xmp/units.go
index 00fcda0..ce3a380 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -229,9 +229,15 @@ func (d Duration) String() string {
 	return time.Duration(d).String()
 }
 
+// longest duration in seconds a Duration can hold
+const maxSeconds = math.MaxInt64 / int64(time.Second)
+
 func ParseDuration(d string) (Duration, error) {
 	// parse integer values as seconds
 	if i, err := strconv.ParseInt(d, 10, 64); err == nil {
+		if i > maxSeconds || i < -maxSeconds {
+			return 0, fmt.Errorf("xmp: parsing duration '%s': value out of range", d)
+		}
 		return Duration(time.Duration(i) * time.Second), nil
 	}
 	// parse as duration string (note: no whitespace allowed)
@@ -272,6 +278,9 @@ func (d *Duration) UnmarshalJSON(data []byte) error {
 		return d.UnmarshalText(bytes.Trim(data, "\""))
 	}
 	if i, err := strconv.ParseInt(string(data), 10, 64); err == nil {
+		if i > maxSeconds || i < -maxSeconds {
+			return fmt.Errorf("xmp: parsing duration '%s': value out of range", string(data))
+		}
 		*d = Duration(time.Duration(i) * time.Second)
 		return nil
 	}
-- 
2.43.0


From 19e1bd9f7c517c34926d9365719123abd2c4786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:38 +0000
Subject: [PATCH 074/107] fix: id3: genre numbers above 255 are not genres

---
 models/id3/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 4101248..181d0e2 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -135,7 +135,7 @@ func ParseGenreV1(s string) (GenreV1, error) {
 			return i, nil
 		}
 	}
-	if t, err := strconv.Atoi(s); err == nil {
+	if t, err := strconv.ParseUint(s, 10, 8); err == nil {
 		return GenreV1(t), nil
 	}
 	return 0xff, fmt.Errorf("id3: invalid genre '%s'", s)
-- 
2.43.0


From 04002a66918bf1f84113ae3597058dd63e17ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 075/107] fix: exif: refuse decimal GPS coordinates that are no
 degrees

---
 models/exif/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index eb3dfe3..1d4b091 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -392,7 +392,7 @@ type GPSCoord [3]xmp.Rational
 func (x *GPSCoord) UnmarshalText(data []byte) error {
 	s := string(data)
 	f, err := strconv.ParseFloat(s, 64)
-	if err != nil || s[0] != '-' && len(strings.Split(s, ".")[0]) > 3 {
+	if err != nil || s[0] != '-' && len(strings.Split(s, ".")[0]) > 3 || !(math.Abs(f) < 1000) {
 		return fmt.Errorf("exif: invalid decimal GPS coordinate '%s'", s)
 	}
 	val := math.Abs(f)
-- 
2.43.0


From be2561f6c0521442a9f2c91e8862e294a0362dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 076/107] fix: exif: apply sub-second values to dates, without
 overflow

---
 models/exif/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 1d4b091..462ec97 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -121,15 +121,15 @@ func convertDateToXMP(d Date, s string) (xmp.Date, error) {
 	}
 	xd := xmp.Date(d)
 	s = strings.TrimSpace(s)
-	if s != "" {
+	if s == "" {
 		return xd, nil
 	}
-	if i, err := strconv.ParseInt(s, 10, 64); err != nil {
+	// fraction of a second in nanoseconds
+	if i, err := strconv.ParseUint((s + "000000000")[:9], 10, 32); err != nil {
 		return xd, fmt.Errorf("exif: invalid subsecond format '%s': %v", s, err)
 	} else {
 		sec := d.Value().Unix()
-		nsec := i * int64(math.Pow10(9-len(s)))
-		xd = xmp.Date(time.Unix(sec, nsec))
+		xd = xmp.Date(time.Unix(sec, int64(i)).In(d.Value().Location()))
 	}
 	return xd, nil
 }
-- 
2.43.0


From 5ad2d925d7daeaf64ff1c84c1e5e5783e4665737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:42 +0000
Subject: [PATCH 077/107] fix: xmp_dm: report unreadable media times instead of
 reading zeros

---
 models/xmp_dm/types.go | 52 ++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 291b7c6..ed6b653 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -19,7 +19,6 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
-	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -532,29 +531,42 @@ func (x MediaTime) IsZero() bool {
 // xmpDM:duration="0:07.680"
 func (x *MediaTime) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
 	v := string(a.Value)
-	var dur time.Duration
-	fields := strings.Split(v, ".")
+	var (
+		h, m, s, ms int64
+		err         error
+	)
+	fields := strings.SplitN(v, ".", 2)
 	if len(fields) > 1 {
-		if i, err := strconv.ParseInt(fields[1], 10, 64); err == nil {
-			dur = time.Duration(i * int64(math.Pow10(9-len(fields[1]))))
+		// fraction of a second in nanoseconds
+		i, err := strconv.ParseUint((fields[1] + "000000000")[:9], 10, 32)
+		if err != nil {
+			return fmt.Errorf("xmp: invalid media time '%s': %v", v, err)
+		}
+		ms = int64(i) / int64(time.Millisecond)
+	}
+	if v != "" {
+		fields = strings.Split(fields[0], ":")
+		n := len(fields)
+		if n > 3 {
+			return fmt.Errorf("xmp: invalid media time '%s'", v)
+		}
+		if s, err = strconv.ParseInt(fields[n-1], 10, 32); err != nil {
+			return fmt.Errorf("xmp: invalid media time '%s': %v", v, err)
+		}
+		if n > 1 {
+			if m, err = strconv.ParseInt(fields[n-2], 10, 32); err != nil {
+				return fmt.Errorf("xmp: invalid media time '%s': %v", v, err)
+			}
+		}
+		if n > 2 {
+			if h, err = strconv.ParseInt(fields[n-3], 10, 32); err != nil {
+				return fmt.Errorf("xmp: invalid media time '%s': %v", v, err)
+			}
 		}
 	}
-	fields = strings.Split(fields[0], ":")
-	var h, m, s int
-	switch len(fields) {
-	case 3:
-		h, _ = strconv.Atoi(fields[0])
-		m, _ = strconv.Atoi(fields[1])
-		s, _ = strconv.Atoi(fields[2])
-	case 2:
-		m, _ = strconv.Atoi(fields[0])
-		s, _ = strconv.Atoi(fields[1])
-	case 1:
-		s, _ = strconv.Atoi(fields[0])
-	}
-	dur += time.Hour*time.Duration(h) + time.Minute*time.Duration(m) + time.Second*time.Duration(s)
+	ms += h*3600000 + m*60000 + s*1000
 	*x = MediaTime{
-		Value: int64(dur / time.Millisecond),
+		Value: ms,
 		Scale: xmp.Rational{
 			Num: 1,
 			Den: 1000,
-- 
2.43.0


From 298432aa009edcfdb19f6359f7ee681fefa2d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 078/107] fix: paths: refuse array indexes no array can grow to

---
 xmp/path.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 00832f4..767e22a 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -797,7 +797,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 						// add empty items up to idx
 						// FIXME: when an error occurs later on, we cannot remove slice entry
-						growSlice(fv, idx)
+						if err := growSlice(fv, idx); err != nil {
+							return err
+						}
 						val = reflect.New(fv.Type().Elem())
 						fv.Index(idx).Set(val.Elem())
 						val = derefValue(fv.Index(idx))
@@ -927,7 +929,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 						return err
 					}
 					// optionally growing the slice
-					growSlice(fv, idx)
+					if err := growSlice(fv, idx); err != nil {
+						return err
+					}
 					// overwrite current entry,
 					fv.Index(idx).Set(v.Elem())
 
@@ -1289,9 +1293,15 @@ func parsePathSegment(name string) (string, int, string) {
 	return name, idx, lang
 }
 
-func growSlice(v reflect.Value, n int) {
+// largest array index a path may create
+const maxArrayIndex = 1 << 24
+
+func growSlice(v reflect.Value, n int) error {
 	if v.Kind() != reflect.Slice {
-		return
+		return nil
+	}
+	if n > maxArrayIndex {
+		return fmt.Errorf("array index %d out of range", n)
 	}
 	if l := v.Len(); l <= n {
 		if v.Cap() <= n {
@@ -1302,4 +1312,5 @@ func growSlice(v reflect.Value, n int) {
 		}
 		v.SetLen(n + 1)
 	}
+	return nil
 }
-- 
2.43.0


From 1de1eff47bb0430e931efccd75402f83c3212485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:56 +0000
Subject: [PATCH 079/107] fix: Rational: read decimal fractions as the number
 they are

---
 xmp/xmp_types.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 82e0426..1f22066 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -41,6 +41,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"strconv"
+	"math"
 	"strings"
 	"time"
 )
@@ -577,9 +578,18 @@ func (x *Rational) UnmarshalText(data []byte) error {
 		var f float64
 		f, err = strconv.ParseFloat(v, 32)
 		if err == nil {
-			if f < 1 {
-				r = Rational{1, int64(1000/f+50) / 1000}
-			} else {
+			switch {
+			case math.Abs(f) > 1e12:
+				err = strconv.ErrRange
+			case f > 1e-18 && f < 1:
+				// prefer 1/n (i.e. exposure times) when this is the same number
+				n := int64(1/f + 0.5)
+				if math.Abs(1/float64(n)-f) < 5e-7 {
+					r = Rational{1, n}
+				} else {
+					r = FloatToRational(float32(f))
+				}
+			default:
 				r = FloatToRational(float32(f))
 			}
 			// fmt.Printf("Float %f in Rational %d/%d\n", f, r.Num, r.Den)
-- 
2.43.0


From dfebc6d68768a2cab2ba4cecdc7a098d4cba8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 080/107] fix: JSON: keep large integers as they are written

---
 xmp/json.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 5aef953..dd27620 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -15,12 +15,14 @@
 package xmp
 
 import (
+	"bytes"
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"reflect"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 type jsonDocument struct {
@@ -265,7 +267,10 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 		node := NewNode(xml.Name{Local: name})
 		root.Nodes = append(root.Nodes, node)
 		content := make(map[string]interface{})
-		if err := json.Unmarshal(in.Models[name], &content); err != nil {
+		// keep numbers as they are written
+		jdec := json.NewDecoder(bytes.NewReader(in.Models[name]))
+		jdec.UseNumber()
+		if err := jdec.Decode(&content); err != nil {
 			return fmt.Errorf("xmp: json unmarshal model '%s' failed: %v", name, err)
 		}
 		for _, n := range sortedKeys(content) {
@@ -305,8 +310,14 @@ func jsonToNode(name string, v interface{}, node *Node) {
 		switch val := v.(type) {
 		case string:
 			s = val
-		case float64:
-			s = strconv.FormatFloat(val, 'f', -1, 64)
+		case json.Number:
+			s = val.String()
+			if strings.ContainsAny(s, "eE") {
+				// spell out exponents
+				if f, err := val.Float64(); err == nil {
+					s = strconv.FormatFloat(f, 'f', -1, 64)
+				}
+			}
 		case bool:
 			s = strconv.FormatBool(val)
 		case nil:
@@ -411,7 +422,7 @@ func sortedKeys(m map[string]interface{}) []string {
 
 func isSimpleValue(v interface{}) bool {
 	switch v.(type) {
-	case string, float64, bool, nil:
+	case string, json.Number, bool, nil:
 		return true
 	default:
 		return false
-- 
2.43.0


From 632010aec80bcc248a422417172ff25311d58a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 081/107] fix: qt: report an unreadable altitude instead of
 reading zero

---
 models/qt/qt_metadata.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/qt/qt_metadata.go b/models/qt/qt_metadata.go
index ea385fc..0386a58 100644
--- a/models/qt/qt_metadata.go
+++ b/models/qt/qt_metadata.go
@@ -156,7 +156,11 @@ func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
 				x.Location.Longitude = xmp.GPSCoord(v)
 			case 2:
 				v = strings.TrimSuffix(v, "/")
-				x.Location.Altitude, _ = strconv.ParseFloat(v, 64)
+				alt, err := strconv.ParseFloat(v, 64)
+				if err != nil {
+					return fmt.Errorf("qt: invalid location '%s': %v", x.LocationISO6709, err)
+				}
+				x.Location.Altitude = alt
 			}
 		}
 	}
-- 
2.43.0


From 756907bb5e01ef6c6b38127502cb0c6664519840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:55 +0000
Subject: [PATCH 082/107] fix: setValue: a refused value leaves a nil pointer
 nil

---
 xmp/unmarshal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index aceb595..9825e98 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -484,7 +484,13 @@ func setValue(dst reflect.Value, src string) error {
 	dst0 := dst
 	if dst.Kind() == reflect.Ptr {
 		if dst.IsNil() {
-			dst.Set(reflect.New(dst.Type().Elem()))
+			// allocate memory only for values that can be set
+			v := reflect.New(dst.Type().Elem())
+			if err := setValue(v.Elem(), src); err != nil {
+				return err
+			}
+			dst.Set(v)
+			return nil
 		}
 		dst = dst.Elem()
 	}
-- 
2.43.0


From 8a9dc6c5681deca0d7aef760e6417dd446c74267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 083/107] fix: SetNativeField: a refused value leaves a nil
 pointer nil

---
 xmp/native.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index 24687eb..f74264d 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -152,11 +152,19 @@ func SetNativeField(v Model, name, value string) error {
 
 	f := finfo.value(val)
 
-	// allocate memory for pointer values in structs
+	// allocate memory for pointer values in structs, keep it when the value is accepted
 	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
-		f.Set(reflect.New(f.Type().Elem()))
+		nv := reflect.New(f.Type().Elem())
+		if err := setNativeValue(nv, finfo, value); err != nil {
+			return err
+		}
+		f.Set(nv)
+		return nil
 	}
+	return setNativeValue(f, finfo, value)
+}
 
+func setNativeValue(f reflect.Value, finfo *fieldInfo, value string) error {
 	// load and potentially create value
 	f = derefValue(f)
 
-- 
2.43.0


From 1416f81ceb4960f09217eaec7cbbd99c9abc5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 084/107] fix: SetLocaleField: a field of another type stays as
 it is

---
 xmp/native.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index f74264d..dba0134 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -209,11 +209,19 @@ func SetLocaleField(v Model, lang string, name, value string) error {
 
 	f := finfo.value(val)
 
-	// allocate memory for pointer values in structs
+	// allocate memory for pointer values in structs, keep it when the field can be set
 	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
-		f.Set(reflect.New(f.Type().Elem()))
+		nv := reflect.New(f.Type().Elem())
+		if err := setLocaleValue(nv, lang, name, value); err != nil {
+			return err
+		}
+		f.Set(nv)
+		return nil
 	}
+	return setLocaleValue(f, lang, name, value)
+}
 
+func setLocaleValue(f reflect.Value, lang, name, value string) error {
 	// load and potentially create value
 	f = derefValue(f)
 
-- 
2.43.0


From 824e8b0a75277b089508d07373bccbe187088201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 085/107] fix: keep the text of JSON alternatives without a
 language

An alternative that is neither the default nor has a language was read
from JSON as an empty element, losing its text.
---
 xmp/json.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index dd27620..e4d756d 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -356,21 +356,18 @@ func jsonToNode(name string, v interface{}, node *Node) {
 				lang, _ := item["lang"].(string)
 				val, _ := item["value"].(string)
 
-				// add single node when default || !default && lang != ""
-				if def || !def && lang != "" {
-					if def {
-						linode.Attr = append(linode.Attr, Attr{
-							Name:  xml.Name{Local: "xml:lang"},
-							Value: "x-default",
-						})
-						linode.Value = val
-					} else {
-						linode.Attr = append(linode.Attr, Attr{
-							Name:  xml.Name{Local: "xml:lang"},
-							Value: lang,
-						})
-						linode.Value = val
-					}
+				// add single node, with a language when one is given
+				linode.Value = val
+				if def {
+					linode.Attr = append(linode.Attr, Attr{
+						Name:  xml.Name{Local: "xml:lang"},
+						Value: "x-default",
+					})
+				} else if lang != "" {
+					linode.Attr = append(linode.Attr, Attr{
+						Name:  xml.Name{Local: "xml:lang"},
+						Value: lang,
+					})
 				}
 
 				// add second node for default && lang != ""
-- 
2.43.0


From 43f92f4306abd900ebab9a79eb44b96b7d79658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:04 +0000
Subject: [PATCH 086/107] fix: ListModelPaths: report a model without a
 namespace instead of panicking

---
 xmp/path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 767e22a..c088e8d 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1017,7 +1017,11 @@ func (d *Document) ListPaths() (PathValueList, error) {
 }
 
 func ListModelPaths(v Model) (PathValueList, error) {
-	return listPaths(reflect.ValueOf(v), NewPath(v.Namespaces()[0].GetName()))
+	nsName, err := getNamespaceName(v)
+	if err != nil {
+		return nil, err
+	}
+	return listPaths(reflect.ValueOf(v), NewPath(nsName))
 }
 
 func listPaths(val reflect.Value, path Path) (PathValueList, error) {
-- 
2.43.0


From d2b3c14ce5bac49c97d9648cbae36119c09252e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 087/107] fix: Sync: a destination model without a namespace
 does not match instead of panicking

---
 xmp/sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index 8b57da3..b50c0a6 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -181,7 +181,7 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 	dModel := v
 	if dModel != nil {
 		// dPath model must match dPath namespace
-		if !dPath.MatchNamespace(dModel.Namespaces()[0]) {
+		if n := dModel.Namespaces(); len(n) == 0 || !dPath.MatchNamespace(n[0]) {
 			return nil
 		}
 	} else {
-- 
2.43.0


From 508fb6af321a0537fcf8ee776ef9e3157d9d044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:50 +0000
Subject: [PATCH 088/107] fix: read identifiers with a scheme in the form they
 are written in

An identifier with a scheme is written as a structure (parseType Resource)
and in JSON as an object. Reading these forms lost both its value and its
scheme, because the first child was taken for the structure.
---
 models/xmp_base/types.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index 419fa69..0dae2ce 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -76,19 +76,21 @@ func (x *Identifier) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) e
 		ID:     x.ID,
 		Scheme: x.Scheme,
 	}
-	var err error
-	if len(node.Nodes) == 0 && len(node.Attr) == 0 {
-		err = d.DecodeElement(&id.ID, node) // value-only from node.Value
-	} else if len(node.Nodes) == 0 {
-		err = d.DecodeElement(&id.ID, node) // value from node.Value
-		if err == nil {
-			err = d.DecodeElement(&id, node) // scheme from attr
+	src := node
+	if len(node.Nodes) == 1 && node.Nodes[0].FullName() == "rdf:Description" {
+		src = node.Nodes[0]
+	}
+	if src.Value != "" {
+		// value from node.Value
+		if err := d.DecodeElement(&id.ID, src); err != nil {
+			return err
 		}
-	} else {
-		err = d.DecodeElement(&id, node.Nodes[0]) // both from child nodes
 	}
-	if err != nil {
-		return err
+	if len(src.Nodes) > 0 || len(src.Attr) > 0 {
+		// scheme from attr or both from child nodes
+		if err := d.DecodeElement(&id, src); err != nil {
+			return err
+		}
 	}
 	x.ID = id.ID
 	x.Scheme = id.Scheme
-- 
2.43.0


From e6942b9f4ec32ccf4ec67c0752989ef984ae510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:30 +0000
Subject: [PATCH 089/107] fix: JSON: keep the default of an alternative list
 that has no duplicate

---
 xmp/json.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index e4d756d..4a3c965 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -198,17 +198,15 @@ func nodeToJson(n *Node) (interface{}, error) {
 					}
 					a = append(a, ai)
 				}
-				// mark the default item
+				// merge the default item with a duplicate, if any
 				if defLangContent != "" && len(a) > 1 {
 					for i, l := 0, len(a); i < l; i++ {
-						if a[i].Value == defLangContent {
+						if i != defLangIndex && a[i].Value == defLangContent {
 							a[i].IsDefault = true
+							a = append(a[:defLangIndex], a[defLangIndex+1:]...)
+							break
 						}
 					}
-					// remove the duplicate default element
-					if defLangIndex > -1 {
-						a = append(a[:defLangIndex], a[defLangIndex+1:]...)
-					}
 				}
 				return a, nil
 			}
-- 
2.43.0


From e1d31d7cc4c45d7e2027e4bb6250f73c01729d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:04 +0000
Subject: [PATCH 090/107] fix: exif: take over the creator tool when there is
 one

---
 models/exif/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index f6644cf..b5f9d70 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -291,7 +291,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 			x.DateTime = Date(base.ModifyDate.Value())
 			x.SubSecTime = strconv.Itoa(base.ModifyDate.Value().Nanosecond())
 		}
-		if base.CreatorTool.IsZero() {
+		if !base.CreatorTool.IsZero() {
 			x.SoftwareXMP = base.CreatorTool
 			x.Software = base.CreatorTool.String()
 		}
-- 
2.43.0


From 3954a3f93d6779c8185a09dca9cc662d44b32087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:07 +0000
Subject: [PATCH 091/107] fix: exif: keep leading zeros of fractions of a
 second

---
 models/exif/model.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index b5f9d70..1b73067 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -27,7 +27,6 @@ package exif
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/dc"
@@ -267,7 +266,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if !x.DateTimeDigitizedXMP.IsZero() {
 		x.DateTimeDigitized = Date(x.DateTimeDigitizedXMP.Value())
-		x.SubSecTimeDigitized = strconv.Itoa(x.DateTimeDigitizedXMP.Value().Nanosecond())
+		x.SubSecTimeDigitized = fmt.Sprintf("%09d", x.DateTimeDigitizedXMP.Value().Nanosecond())
 	}
 
 	if len(x.ISOSpeedRatings) > 0 {
@@ -289,7 +288,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !base.ModifyDate.IsZero() {
 			x.DateTimeXMP = base.ModifyDate
 			x.DateTime = Date(base.ModifyDate.Value())
-			x.SubSecTime = strconv.Itoa(base.ModifyDate.Value().Nanosecond())
+			x.SubSecTime = fmt.Sprintf("%09d", base.ModifyDate.Value().Nanosecond())
 		}
 		if !base.CreatorTool.IsZero() {
 			x.SoftwareXMP = base.CreatorTool
@@ -322,7 +321,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !m.DateCreated.IsZero() {
 			x.DateTimeOriginalXMP = m.DateCreated
 			x.DateTimeOriginal = Date(m.DateCreated.Value())
-			x.SubSecTimeOriginal = strconv.Itoa(m.DateCreated.Value().Nanosecond())
+			x.SubSecTimeOriginal = fmt.Sprintf("%09d", m.DateCreated.Value().Nanosecond())
 		}
 	}
 	return nil
-- 
2.43.0


From 9ef9727484f63e2ae1aee57fc41fb67cb7085c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:11 +0000
Subject: [PATCH 092/107] fix: id3: keep the total of track and disc numbers

---
 models/id3/model.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index cc368ec..c9eb9ab 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -114,9 +114,7 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 			}
 		}
 		if dm.TrackNumber > 0 {
-			x.TrackNumber = TrackNum{
-				Track: dm.TrackNumber,
-			}
+			x.TrackNumber.Track = dm.TrackNumber
 		}
 		if dm.PartOfCompilation.Value() {
 			x.IsCompilation = True
@@ -130,9 +128,7 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 			x.ModifiedBy = dm.Engineer
 		}
 		if dm.DiscNumber > 0 {
-			x.PartOfASet = TrackNum{
-				Track: dm.DiscNumber,
-			}
+			x.PartOfASet.Track = dm.DiscNumber
 		}
 		if dm.Lyrics != "" {
 			x.UnsynchronizedLyrics = strings.Split(dm.Lyrics, "\n")
-- 
2.43.0


From 2a3d87a4224e231eb70aa0ff1cf3b590d7cf4ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:14 +0000
Subject: [PATCH 093/107] fix: id3: do not replace values by empty ones in
 synchronisation

---
 models/id3/model.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index c9eb9ab..71affcd 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -118,8 +118,6 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 		}
 		if dm.PartOfCompilation.Value() {
 			x.IsCompilation = True
-		} else {
-			x.IsCompilation = False
 		}
 		if dm.Composer != "" {
 			x.Composer = dm.Composer
@@ -186,7 +184,9 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.AlbumTitle != "" {
 		dm.Album = x.AlbumTitle
 	}
-	dm.PartOfCompilation = xmp.Bool(x.IsCompilation.Value())
+	if x.IsCompilation.Value() {
+		dm.PartOfCompilation = xmp.True
+	}
 	if x.Composer != "" {
 		dm.Composer = x.Composer
 	}
@@ -199,10 +199,10 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.ModifiedBy != "" {
 		dm.Engineer = x.ModifiedBy
 	}
-	if !x.PartOfASet.IsZero() {
+	if x.PartOfASet.Track > 0 {
 		dm.DiscNumber = x.PartOfASet.Track
 	}
-	if !x.TrackNumber.IsZero() {
+	if x.TrackNumber.Track > 0 {
 		dm.TrackNumber = x.TrackNumber.Track
 	}
 	if len(x.UnsynchronizedLyrics) > 0 {
-- 
2.43.0


From 2ec16186d45c816b2ad18583f8ecfe931f874fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:19 +0000
Subject: [PATCH 094/107] fix: iXML: do not replace values by empty ones in
 synchronisation

---
 models/ixml/model.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index 99a73f2..090fc4e 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -115,15 +115,29 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 	if err != nil {
 		return err
 	}
-	dm.TapeName = x.SoundRoll
-	dm.Scene = x.SceneName
-	dm.TrackNumber = x.Take
-	dm.LogComment = x.Note
-	dm.ProjectName = x.Project
-	dm.Good = xmp.Bool(x.IsCircled.Value())
+	if x.SoundRoll != "" {
+		dm.TapeName = x.SoundRoll
+	}
+	if x.SceneName != "" {
+		dm.Scene = x.SceneName
+	}
+	if x.Take > 0 {
+		dm.TrackNumber = x.Take
+	}
+	if x.Note != "" {
+		dm.LogComment = x.Note
+	}
+	if x.Project != "" {
+		dm.ProjectName = x.Project
+	}
+	if x.IsCircled.Value() {
+		dm.Good = xmp.True
+	}
 	if x.Speed != nil {
 		dm.StartTimecode = x.Speed.XmpTimecode()
-		dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
+		if v := x.Speed.FileSampleRate.Value(); v != 0 {
+			dm.AudioSampleRate = v
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 6104412849f69fa0ddc8aab8662fc28ec6a14cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 095/107] fix: id3: genres multiplied each time they were read

---
 models/id3/types.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 181d0e2..58d14f7 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -144,22 +144,23 @@ func ParseGenreV1(s string) (GenreV1, error) {
 type Genre []string
 
 func (x *Genre) UnmarshalText(data []byte) error {
-	value := string(data)
-	for _, v := range strings.Split(value, ",") {
+	var a Genre
+	for _, v := range strings.Split(string(data), ",") {
 		v = strings.TrimSpace(v)
 		if g, err := ParseGenreV1(v); err == nil {
-			*x = append(*x, g.String())
+			a = append(a, g.String())
 			continue
 		}
-		switch value {
+		switch v {
 		case "RX":
-			*x = append(*x, "Remix")
+			a = append(a, "Remix")
 		case "CR":
-			*x = append(*x, "Cover")
+			a = append(a, "Cover")
 		default:
-			*x = append(*x, value)
+			a = append(a, v)
 		}
 	}
+	*x = a
 	return nil
 }
 
-- 
2.43.0


From 6ed4eba0b2ba0eaa77b80119a1897e4789362776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:45 +0000
Subject: [PATCH 096/107] fix: iXML: do not replace a start timecode by an
 empty one

---
 models/ixml/model.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index 090fc4e..43d40e6 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -134,7 +134,9 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 		dm.Good = xmp.True
 	}
 	if x.Speed != nil {
-		dm.StartTimecode = x.Speed.XmpTimecode()
+		if tc := x.Speed.XmpTimecode(); !tc.IsZero() {
+			dm.StartTimecode = tc
+		}
 		if v := x.Speed.FileSampleRate.Value(); v != 0 {
 			dm.AudioSampleRate = v
 		}
-- 
2.43.0


From 9bad198baeae236247c40335f9ec6b987e26a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:50 +0000
Subject: [PATCH 097/107] fix: xmp: an identifier read from text kept the
 scheme of the previous one

---
 models/xmp_base/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index 0dae2ce..c82f05e 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -108,7 +108,7 @@ func (x Identifier) MarshalText() ([]byte, error) {
 }
 
 func (x *Identifier) UnmarshalText(data []byte) error {
-	x.ID = string(data)
+	*x = Identifier{ID: string(data)}
 	return nil
 }
 
-- 
2.43.0


From 60a44cefe9d12662c2f48c9ce9b7d91a6bf19027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:22 +0000
Subject: [PATCH 098/107] fix: NullFloat and NullFloat64 swapped positive and
 negative infinity in JSON

---
 xmp/units.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index ce3a380..88ecc1b 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -370,9 +370,9 @@ func (f NullFloat) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
@@ -441,9 +441,9 @@ func (f NullFloat64) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
-- 
2.43.0


From e068ae0894f0721c4c70a23a02ec7912d216428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:37 +0000
Subject: [PATCH 099/107] fix: deleting a property by path reported success
 without clearing values that ignore an empty text

---
 xmp/path.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index c088e8d..dc7e1ca 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -978,6 +978,13 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 		}
 
+		// clear the value
+		if flags&DELETE > 0 && value == "" {
+			fv = finfo.value(val)
+			fv.Set(reflect.Zero(fv.Type()))
+			return nil
+		}
+
 		// Text
 		if fv.CanAddr() {
 			pv := fv.Addr()
-- 
2.43.0


From 871e80bd5b574c29f37956aa474746154a524e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:17 +0000
Subject: [PATCH 100/107] fix: listing paths lists the texts and attributes of
 array items

---
 xmp/node.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 77f8766..b1a5fb4 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -668,17 +668,11 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 		for i, li := range n.Nodes {
 			_, walker := path.Pop()
 			walker = walker.AppendIndex(i)
-			for _, v := range li.Nodes {
-				name := v.Name()
-				if v.Namespace() != path.NamespacePrefix() {
-					name = v.FullName()
-				}
-				r, err := v.ListPaths(walker.Push(name))
-				if err != nil {
-					return nil, err
-				}
-				l = append(l, r...)
+			r, err := li.ListPaths(walker)
+			if err != nil {
+				return nil, err
 			}
+			l = append(l, r...)
 		}
 	case "rdf:Alt":
 		for _, li := range n.Nodes {
-- 
2.43.0


From 52c507d837ab5e0b7141d0051a734c2b22a29d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:25 +0000
Subject: [PATCH 101/107] fix: listing paths lists structured alternatives

---
 xmp/node.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index b1a5fb4..20ab038 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -675,7 +675,17 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 			l = append(l, r...)
 		}
 	case "rdf:Alt":
-		for _, li := range n.Nodes {
+		for i, li := range n.Nodes {
+			if len(li.Nodes) > 0 {
+				// structured alternatives are told apart by position
+				_, walker := path.Pop()
+				r, err := li.ListPaths(walker.AppendIndex(i))
+				if err != nil {
+					return nil, err
+				}
+				l = append(l, r...)
+				continue
+			}
 			lang := "x-default"
 			if attr := li.GetAttr("", "lang"); len(attr) > 0 {
 				lang = attr[0].Value
-- 
2.43.0


From 8e85348d681c917421503d723f8d732a58da9d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:34 +0000
Subject: [PATCH 102/107] fix: listing paths lists the other values of a model
 when one has no text

---
 xmp/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index dc7e1ca..9512fc5 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1182,7 +1182,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 					if isText {
 						b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-						if err != nil || b == nil {
+						if err != nil {
 							return nil, err
 						}
 						pvl.Add(path.Push(fname).AppendIndex(i), string(b))
@@ -1226,7 +1226,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 		if isText {
 			b, err := av.Interface().(encoding.TextMarshaler).MarshalText()
-			if err != nil || b == nil {
+			if err != nil {
 				return nil, err
 			}
 			pvl.Add(path.Push(fname), string(b))
-- 
2.43.0


From 1e1452bb7407a89f0b919ed447fd187ef887e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:44 +0000
Subject: [PATCH 103/107] fix: listing paths lists unknown properties beside
 the model of an extension

---
 xmp/path.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 9512fc5..29cde1c 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1129,12 +1129,11 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 								} else {
 									pvl = append(pvl, l...)
 								}
+							}
+							if l, err := child.ListPaths(subpath); err != nil {
+								return nil, err
 							} else {
-								if l, err := child.ListPaths(subpath); err != nil {
-									return nil, err
-								} else {
-									pvl = append(pvl, l...)
-								}
+								pvl = append(pvl, l...)
 							}
 						}
 					} else {
-- 
2.43.0


From 52d30645eb2e7d8118b3b8e585720d8958803921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:15 +0000
Subject: [PATCH 104/107] fix: reading a path into a named extension looks up
 the extension the path names

---
 xmp/path.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 29cde1c..90e2da6 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -357,6 +357,8 @@ func GetModelPath(v Model, path Path) (string, error) {
 				return node.GetPath(walker)
 
 			case NamedExtensionArray:
+				// unwrap extension name and keep path remainder
+				name, walker = walker.PopFront()
 				node := arr.FindNodeByName(name)
 				if node == nil {
 					return "", errNotFound
-- 
2.43.0


From 8826c51c9d5fc10232e74ba705b45aba4c9b976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:16 +0000
Subject: [PATCH 105/107] fix: the default item of a language alternative is
 found by the x-default its path names

---
 xmp/array.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index 027ef45..2f1c674 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -129,7 +129,8 @@ func (a AltString) Default() string {
 
 func (a AltString) Index(lang string) int {
 	for i, v := range a {
-		if v.Lang == lang {
+		// the default item without a language goes by x-default in paths
+		if v.Lang == lang || v.GetLang() == lang {
 			return i
 		}
 	}
@@ -140,10 +141,8 @@ func (a AltString) Get(lang string) string {
 	if lang == "" {
 		return a.Default()
 	}
-	for _, v := range a {
-		if v.Lang == lang {
-			return v.Value
-		}
+	if i := a.Index(lang); i > -1 {
+		return a[i].Value
 	}
 	return ""
 }
@@ -202,14 +201,7 @@ func (a *AltString) Set(lang string, value string) {
 }
 
 func (a *AltString) RemoveLang(lang string) {
-	idx := -1
-	for i, v := range *a {
-		if v.Lang == lang {
-			idx = i
-			break
-		}
-	}
-	if idx > -1 {
+	if idx := a.Index(lang); idx > -1 {
 		*a = append((*a)[:idx], (*a)[idx+1:]...)
 		a.EnsureDefault()
 	}
-- 
2.43.0


From e23f0f8f2e121c26c72f003d447f8ddee4a5ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:08 +0000
Subject: [PATCH 106/107] fix: a path segment without a name addresses the
 array inside the node

---
 xmp/node.go | 16 ++++++++++++----
 xmp/path.go |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 20ab038..0d9b0b0 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -413,8 +413,12 @@ func (n *Node) GetPath(path Path) (string, error) {
 		return n.GetPath(path)
 	}
 
-	// lookup name in node list or attributes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
+	// lookup name in node list or attributes, a segment without name
+	// addresses an array directly inside this node
+	node := n
+	if name != "" {
+		node = n.Nodes.FindNodeByName(stripPrefix(name))
+	}
 	if node != nil {
 		switch {
 		case idx > -1:
@@ -482,8 +486,12 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		break
 	}
 
-	// handle nodes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
+	// handle nodes, a segment without name addresses an array directly
+	// inside this node
+	node := n
+	if name != "" {
+		node = n.Nodes.FindNodeByName(stripPrefix(name))
+	}
 	if node == nil {
 		if flags&CREATE > 0 && value != "" {
 			if name != "" && !hasPrefix(name) {
diff --git a/xmp/path.go b/xmp/path.go
index 90e2da6..a934f2b 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1291,7 +1291,7 @@ func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
 	// split lang or array index from name, be safe with slice indexes
-	if k := strings.Index(name, "["); k > 0 && len(name) > k+1 {
+	if k := strings.Index(name, "["); k >= 0 && len(name) > k+1 {
 		s := strings.TrimSuffix(name[k+1:], "]")
 		if len(s) == 0 {
 			idx = 0
-- 
2.43.0


From dc6973cf6593d495f992684e7597dc9b5a3913ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:40 +0000
Subject: [PATCH 107/107] fix: an item of an alternative array without a
 language is found by the path that lists it

---
 xmp/node.go | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 0d9b0b0..ffc9e5a 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -433,11 +433,7 @@ func (n *Node) GetPath(path Path) (string, error) {
 				return "", nil
 			}
 			for _, v := range node.Nodes[0].Nodes {
-				attr := v.GetAttr("", "lang")
-				if len(attr) == 0 {
-					continue
-				}
-				if attr[0].Value == string(lang) {
+				if v.altLang() == lang {
 					return v.Value, nil
 				}
 			}
@@ -453,6 +449,15 @@ func (n *Node) GetPath(path Path) (string, error) {
 	return "", nil
 }
 
+// altLang returns the language that names an item of an alternative array in
+// paths.
+func (n *Node) altLang() string {
+	if attr := n.GetAttr("", "lang"); len(attr) > 0 {
+		return attr[0].Value
+	}
+	return "x-default"
+}
+
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
@@ -589,10 +594,8 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		case flags&UNIQUE > 0 && value != "":
 			// append source when not exist
 			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang && v.Value == value {
-						return nil
-					}
+				if v.altLang() == lang && v.Value == value {
+					return nil
 				}
 			}
 			li := arr.AppendNode(NewNode(NewName("rdf:li")))
@@ -608,11 +611,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		case flags&(REPLACE|CREATE) > 0 && value != "" && lang != "":
 			// replace single entry
 			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang {
-						v.Value = value
-						return nil
-					}
+				if v.altLang() == lang {
+					v.Value = value
+					return nil
 				}
 			}
 			li := arr.AppendNode(NewNode(NewName("rdf:li")))
@@ -630,11 +631,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		case flags&DELETE > 0 && value == "" && lang != "":
 			// delete a specific language
 			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang {
-						arr.RemoveNode(v).Close()
-						return nil
-					}
+				if v.altLang() == lang {
+					arr.RemoveNode(v).Close()
+					return nil
 				}
 			}
 
@@ -694,12 +693,8 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 				l = append(l, r...)
 				continue
 			}
-			lang := "x-default"
-			if attr := li.GetAttr("", "lang"); len(attr) > 0 {
-				lang = attr[0].Value
-			}
 			_, walker := path.Pop()
-			walker = walker.AppendIndexString(lang)
+			walker = walker.AppendIndexString(li.altLang())
 			l = append(l, PathValue{
 				Path:  walker,
 				Value: li.Value,
-- 
2.43.0

