From 7ed9ce9917dcb934113e26cec3c3a15540806590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 01/18] fix: storage collections Find panicked on a set longer
 than any indexed one

---
 pkg/storage/collection16.go | 4 ++++
 pkg/storage/collection8.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 48314ca..14257cd 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -16,6 +16,10 @@ func (collection8x8 Collection16) Find(item Set16) (foundIdx ID32, found bool) {
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such size indexed yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(item); !found {
 		return 0, false
 	}
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 14077d7..532eb09 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -15,6 +15,10 @@ func (collection8x8 Collection8x8) Find(setItem Set8) (foundIdx ID16, found bool
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such size indexed yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(setItem); !found {
 		return 0, false
 	}
-- 
2.43.0


From 616d9b2ff0580e2adfcb2db078de191ea58802de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 02/18] fix: storage tables issued wrapped IDs once their index
 space was exhausted

---
 pkg/storage/collection16.go | 6 ++++++
 pkg/storage/collection8.go  | 6 ++++++
 pkg/storage/table16.go      | 8 +++++++-
 pkg/storage/table8.go       | 8 +++++++-
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 14257cd..a85c5de 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -1,5 +1,7 @@
 package storage // nolint:dupl
 
+import "math"
+
 // Collection16 stores unique ids.Set16 items organized in Table16 storages where each storage
 // keeps sets of same sizes.
 // Each Collection16 item is addressable by unique ids.ID32
@@ -34,6 +36,10 @@ func (collection8x8 *Collection16) Index(item Set16) (indexedIdx ID32) {
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("set too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 532eb09..b2dd240 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -1,5 +1,7 @@
 package storage
 
+import "math"
+
 // Collection8x8 stores unique ids.Set8 items in Table8 items where each Table8 stores sets of same sizes.
 // Each Collection8x8 item is addressable by unique ID16
 // which consists of Table8 ID8 item index in collection and ID8 element index in Table8 item.
@@ -33,6 +35,10 @@ func (collection8x8 *Collection8x8) Index(setItem Set8) (indexedIdx ID16) {
 	}
 
 	columnIdx := len(setItem) - 1
+	if columnIdx > math.MaxUint8 {
+		panic("set too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index d6b7ae9..5368ac4 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -1,5 +1,7 @@
 package storage
 
+import "math"
+
 // Table16 stores unique ids.Set16 lists having equal length.
 // It Uses its own ID16 index to address target sets.set16 stack in addition to address element in stack.
 // Used in Collection16 to store different sized sets organized into stacks of equal-sized sets.
@@ -19,7 +21,7 @@ func (table16 Table16) Find(item Set16) (ID16, bool) {
 
 // Index returns 0-based ids.ID16 index of ids.Set16 in Table16 instance.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or if there is no free index left.
 func (table16 *Table16) Index(item Set16) (id ID16) {
 	var found bool
 
@@ -33,6 +35,10 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 		return id
 	}
 
+	if len(*table16) > math.MaxUint16 {
+		panic("table overflow")
+	}
+
 	id = ID16(len(*table16))
 
 	*table16 = append(*table16, item)
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index daafdc6..2710ff2 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -1,5 +1,7 @@
 package storage
 
+import "math"
+
 // Table8 stores upto 256 unique ids.Set8 lists having equal length.
 // Used in Collection8x8 to store different sized sets organized into stacks of equal-sized sets.
 type Table8 []Set8
@@ -18,7 +20,7 @@ func (table8 Table8) Find(item Set8) (ID8, bool) {
 
 // Index returns 0-based ids.ID8 index of ids.Set8 in Table8.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or if there is no free index left.
 func (table8 *Table8) Index(item Set8) (id ID8) {
 	var found bool
 
@@ -32,6 +34,10 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 		return id
 	}
 
+	if len(*table8) > math.MaxUint8 {
+		panic("table overflow")
+	}
+
 	id = ID8(len(*table8))
 
 	*table8 = append(*table8, item)
-- 
2.43.0


From a834d24b008c37853dbbec5d3047d5a0441272ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 03/18] fix: Set8/Set16 WriteTo silently truncated the length
 of oversized sets

---
 pkg/storage/set16.go | 5 +++++
 pkg/storage/set8.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 4fc7ef8..ab75f4c 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -3,6 +3,7 @@ package storage //nolint:godupl
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set16 Set16) EqualTo(another Set16) bool {
 func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set16) > math.MaxUint16 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d elements is too many", ErrSet16, len(set16))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint16(uint16(len(set16))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 31ba515..a8a8b26 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set8 Set8) EqualTo(another Set8) bool {
 func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set8) > math.MaxUint8 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d elements is too many", ErrSet8, len(set8))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint8(uint8(len(set8))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
-- 
2.43.0


From b1891c8946e76da26ae73581249ce01d6c97f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 04/18] fix: tags index wrapped the tag ID and its stored
 length past 256 tags

---
 pkg/dag/idx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d72d7bb..e8a4dcf 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -6,6 +6,7 @@ Idx implements Tag ids, providing simple indexed ID in index.
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/gomorphy/pkg/storage"
 
@@ -65,6 +66,10 @@ func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagsIndex Idx) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if tagsIndex.Len() > math.MaxUint8 {
+		return fmt.Errorf("%w: length: %d tags is too many", common.ErrMarshal, tagsIndex.Len())
+	}
+
 	if err = writer.WriteUint8(uint8(tagsIndex.Len())); err != nil {
 		return fmt.Errorf("%w: cant write length byte: %v", common.ErrMarshal, err)
 	}
@@ -108,6 +113,10 @@ func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 		return id
 	}
 
+	if len(*tagsIndex) > math.MaxUint8 {
+		panic("tags index overflow")
+	}
+
 	id = TagID(len(*tagsIndex))
 	*tagsIndex = append(*tagsIndex, *NewTag(parent, name))
 
-- 
2.43.0


From c37e6f0ddb17f863452d5d24ac9fc72e348ffd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 05/18] fix: index writers silently truncated element counts
 exceeding their stored width

---
 internal/index/tagset_def.go   | 5 +++++
 internal/index/tagset_table.go | 5 +++++
 internal/index/variant_def.go  | 5 +++++
 internal/index/variant_idx.go  | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 486c465..01ff231 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -56,6 +57,10 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSet TagSet) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSet) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: tagset: %d tags is too many", Error, len(tagSet))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSet))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 94cd256..3baa13d 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -57,6 +58,10 @@ func (tagSetTable TagSetTable) BinaryWriteTo(writer *binutils.BinaryWriter) (err
 	if writer == nil {
 		return fmt.Errorf("%w: writer nil", Error)
 	}
+	if tagSetTable.Len() > math.MaxUint16 {
+		return fmt.Errorf("%w: write: %d tagsets is too many", Error, tagSetTable.Len())
+	}
+
 	if err = writer.WriteUint16(uint16(tagSetTable.Len())); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index 5e50ad5..f49a5de 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -27,6 +28,10 @@ func (t TagSetIDCollection) GoString() string {
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (t TagSetIDCollection) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(t) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: %d tagsets is too many", Error, len(t))
+	}
+
 	if err = writer.WriteUint8(uint8(len(t))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 901b17d..0f48a27 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -14,6 +15,10 @@ type VariantsIndex []VariantsTable
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSetIndex) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: %d tables is too many", Error, len(tagSetIndex))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSetIndex))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
-- 
2.43.0


From 9e499bb8955ebf910231e954f0b103c3386c5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 06/18] fix: index tables issued wrapped IDs once their index
 space was exhausted

---
 internal/index/tagset_index.go  | 9 +++++++++
 internal/index/tagset_table.go  | 4 ++++
 internal/index/variant_idx.go   | 8 ++++++--
 internal/index/variant_table.go | 5 +++++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index de4d2e6..8f2a40f 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/binutils"
 
@@ -90,6 +91,10 @@ func (tagSetIndex *TagSetIndex) Find(item TagSet) (storageIdx TagSetID, found bo
 		return 0, false // always return not found for empty sets
 	}
 
+	if len(item) > len(*tagSetIndex) {
+		return 0, false // no sets of such size indexed yet
+	}
+
 	zeroBasedTableIdx := TagSetTableNumber(len(item) - 1)
 
 	if table, ok := tagSetIndex.getTable(zeroBasedTableIdx); ok {
@@ -110,6 +115,10 @@ func (tagSetIndex *TagSetIndex) Index(item TagSet) (storageIdx TagSetID) {
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("tagset too long")
+	}
+
 	if columnIdx >= len(*tagSetIndex) { // no enough columns extend inplace
 		currentLen := len(*tagSetIndex)
 
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 3baa13d..17101db 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -104,6 +104,10 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 		return storageIdx
 	}
 
+	if len(*tagSetTable) > math.MaxUint16 {
+		panic("tagsets table overflow")
+	}
+
 	storageIdx = TagSetSubID(len(*tagSetTable))
 
 	*tagSetTable = append(*tagSetTable, item)
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 0f48a27..d578b4f 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -61,12 +61,12 @@ func (tagSetIndex VariantsIndex) Find(item TagSetIDCollection) (storageIdx Varia
 		return 0, true
 	}
 
-	internalTableID := CollectionTableNumber(len(item) - 1)
-
 	if len(item) > len(tagSetIndex) {
 		return 0, false // always return not found for internalTableID over collection length.
 	}
 
+	internalTableID := CollectionTableNumber(len(item) - 1)
+
 	if itemIdx, found = tagSetIndex[internalTableID].Find(item); !found {
 		return 0, false
 	}
@@ -82,6 +82,10 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 
 	sort.Sort(item)
 
+	if len(item) > math.MaxUint16 {
+		panic("tagsets collection too long")
+	}
+
 	tableNumber := CollectionTableNumber(len(item) - 1)
 	if int(tableNumber) >= len(*tagSetIndex) { // no enough columns extend inplace
 		currentLen := len(*tagSetIndex)
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f51e053..90e0c01 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -75,6 +76,10 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 		return storageIdx
 	}
 
+	if len(*variantsTable) > math.MaxUint16 {
+		panic("variants table overflow")
+	}
+
 	storageIdx = VariantSubID(len(*variantsTable))
 
 	*variantsTable = append(*variantsTable, item)
-- 
2.43.0


From c9ba42773f6bfa5e8e2f0a7628aa8c937b700a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 07/18] fix: lookup of unknown variant ID panicked with index
 out of range

---
 internal/index/idx.go           |  7 ++++++-
 internal/index/variant_idx.go   | 12 ++++++++++--
 internal/index/variant_table.go |  6 +++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index cfeb72f..27e25cd 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -575,5 +575,10 @@ func (index *Index) Optimize() {
 
 // Variants returns TagSet collection
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
-	return index.collectionIdx.Get(id), err
+	tagSetCollection = index.collectionIdx.Get(id)
+	if id != 0 && len(tagSetCollection) == 0 {
+		return nil, fmt.Errorf("%w: no such variant: %d", Error, id)
+	}
+
+	return tagSetCollection, nil
 }
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index d578b4f..eafed9a 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -100,7 +100,7 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 	return tableNumber.Add(1).VariantID(itemIdx)
 }
 
-// Get returns set by index.
+// Get returns set by index. Returns empty set if there is no such index.
 func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
 	if storageIdx == 0 {
 		return make(TagSetIDCollection, 0)
@@ -111,11 +111,19 @@ func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
 		return make(TagSetIDCollection, 0)
 	}
 
+	if int(tableNumber) > len(tagSetIndex) {
+		return make(TagSetIDCollection, 0)
+	}
+
 	return tagSetIndex[tableNumber.Add(-1)].Get(storageIdx.CollectionTableID())
 }
 
-// Table returns internal CollectionTable by its index.
+// Table returns internal CollectionTable by its index. Returns nil if there is no such table.
 func (tagSetIndex VariantsIndex) Table(tableID CollectionTableNumber) VariantsTable {
+	if tableID < 1 || int(tableID) > len(tagSetIndex) {
+		return nil
+	}
+
 	return tagSetIndex[tableID.Add(-1)]
 }
 
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index 90e0c01..dfbebed 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -87,8 +87,12 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 	return storageIdx
 }
 
-// Get returns TagSetIDCollection by its VariantSubID.
+// Get returns TagSetIDCollection by its VariantSubID. Returns empty collection if there is no such VariantSubID.
 func (variantsTable VariantsTable) Get(storageIdx VariantSubID) TagSetIDCollection {
+	if int(storageIdx) >= len(variantsTable) {
+		return make(TagSetIDCollection, 0)
+	}
+
 	return variantsTable[storageIdx]
 }
 
-- 
2.43.0


From fb61690b281cc565b444cefb7f9dbe9ee1512c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 08/18] fix: Node tag sets methods dereferenced nil item of
 root or unknown node

---
 internal/index/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index 0d4ca69..b08db7b 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -30,7 +30,10 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 		tag        dag.Tag
 	)
 
-	item = node.index.getItem(node.id)
+	if item = node.index.getItem(node.id); item == nil {
+		return make([]dag.TagSet, 0) // root or unknown node has no tag sets
+	}
+
 	collection = node.index.collectionIdx.Get(item.Variants)
 	res = make([]dag.TagSet, collection.Len())
 
@@ -60,6 +63,10 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	}
 
 	item := node.index.getItem(node.id)
+	if item == nil {
+		return fmt.Errorf("%w: add tag set: no such node: %d", Error, node.id)
+	}
+
 	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
 	if item.Variants == 0 {
 		node.index.wordsCount++
-- 
2.43.0


From bce92c0b5976aa1027299b642c010a629662ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 09/18] fix: Node.AddTagSet without tags attached an unrelated
 tag set

---
 internal/index/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/index/node.go b/internal/index/node.go
index b08db7b..9d3faa5 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -54,6 +54,11 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 
 func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	var found bool
+
+	if len(newTagSet) == 0 {
+		return fmt.Errorf("%w: add tag set: empty tag set", Error)
+	}
+
 	tagSet := make(TagSet, len(newTagSet))
 	for idx, tagName := range newTagSet {
 		tagSet[idx], found = node.index.tags.Find(tagName)
-- 
2.43.0


From 610d9d17b930280ba29b9eea2a7e7ec152e5c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 10/18] fix: Node.String panicked for root node and split
 multibyte letters

---
 internal/index/node.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index 9d3faa5..da58018 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -105,7 +105,13 @@ func (node *Node) String() string {
 	item := node.index.getItem(node.id)
 	w := node.Word()
 
-	return "Node(" + w[:len(w)-1] + "[" + string(item.Letter) + "]" + item.String()[1:] + ")"
+	if item == nil {
+		return "Node(" + w + ")"
+	}
+
+	letter := string(item.Letter)
+
+	return "Node(" + w[:len(w)-len(letter)] + "[" + letter + "]" + item.String()[len(letter):] + ")"
 }
 
 func newNode(index *Index, id dag.ID) *Node {
-- 
2.43.0


From e93942b8ab0bc98f4c5ce14d41b3bacfe473a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 11/18] fix: TagSetIndex.TableIDs listed IDs shifted by one
 table

---
 internal/index/tagset_index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index 8f2a40f..aede82c 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -137,7 +137,7 @@ func (tagSetIndex TagSetIndex) TableIDs() (res []TagSetID) {
 	res = make([]TagSetID, 0)
 	for tableIDx, table := range tagSetIndex {
 		for idxInTable := range table {
-			tableID := TagSetTableNumber(tableIDx).Add(1).TagSetID(TagSetSubID(idxInTable))
+			tableID := TagSetTableNumber(tableIDx).TagSetID(TagSetSubID(idxInTable))
 			res = append(res, tableID)
 		}
 	}
-- 
2.43.0


From a71a798a91a166a43bf6a00ab4707b8f68ab5afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 12/18] fix: fetching a word inserted empty children maps into
 the index

---
 internal/index/idx.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 27e25cd..ee59b61 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -335,8 +335,7 @@ func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, e
 
 	for {
 		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
-		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
+		if nextItemID, ok = index.childrenMap[currentParentID][firstRune]; !ok {
 			node = index.GetItem(currentParentID)
 			if node == nil {
 				return nil, fmt.Errorf("%w: fetch: no node: `%s[%s]`", Error, string(runes[:currentIndex]), string(firstRune))
@@ -368,8 +367,7 @@ func (index *Index) FetchFromItem(parentID dag.ID, runes []rune) (dag.Node, erro
 
 	for {
 		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
-		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
+		if nextItemID, ok = index.childrenMap[currentParentID][firstRune]; !ok {
 			node := index.GetItem(currentParentID)
 			if node == nil {
 				return nil, fmt.Errorf("%w: fetch: no node: `%s[%s]`", Error, string(runes[:currentIndex]), string(firstRune))
-- 
2.43.0


From 06c8044d22b581a3d30003e9ec1991d09e3639ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 13/18] fix: index load kept previous children and linked root
 to itself

---
 internal/index/idx.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index ee59b61..6e2d55f 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -203,8 +203,15 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 }
 
 func (index *Index) rebuildChildrenIndex() {
+	index.childrenMap = make(map[dag.ID]dag.IdMap)
+	index.wordsCount = 0
 	index.GetChildrenIDMap(0)
+
 	for idx, item := range index.items.items {
+		if idx == 0 {
+			continue // zero item is the root itself
+		}
+
 		nodeID := dag.ID(idx)
 		index.GetChildrenIDMap(item.Parent)
 		index.GetChildrenIDMap(nodeID)
-- 
2.43.0


From f8363934df928dd4237005ecfd6d1c602cffa7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 14/18] fix: update check dereferenced nil file info when data
 file is inaccessible

---
 pkg/opencorpora/loader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 9ed9735..bd73281 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -129,6 +129,11 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return true, nil // no file, update required
 	}
 
+	if err != nil {
+		loader.Warnf("file access: %v: %v", expectedFile, err)
+		return false, err
+	}
+
 	loader.Debugf("check remote %v", RemoteURL)
 	response, err := http.Head(RemoteURL)
 	if err != nil {
-- 
2.43.0


From 64b8c311edd9ed6fedd0537f4ac12537df839bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 15/18] fix: download stored error pages as dictionary and
 leaked update check responses

---
 pkg/opencorpora/loader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index bd73281..0351547 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -141,7 +141,9 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return false, err
 	}
 
-	if response.StatusCode != 200 {
+	defer func() { _ = response.Body.Close() }()
+
+	if response.StatusCode != http.StatusOK {
 		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
 		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
 	}
@@ -189,6 +191,10 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		}
 	}()
 
+	if response.StatusCode != http.StatusOK {
+		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
+	}
+
 	// Create a empty file
 	file, err := os.Create(loader.downloadedFilePath())
 	if err != nil {
-- 
2.43.0


From fd894fc77bf86cd78b402c72fa5903cd6644d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 16/18] fix: download and unpack ignored configured data path
 when creating directory

---
 pkg/opencorpora/loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 0351547..8f0f990 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -175,7 +175,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, nil
 	}
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return false, err
 	}
 
@@ -221,7 +221,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 		target     io.WriteCloser
 	)
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 14d3ea7c88f2281dfc3b8275668a93a95565072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 17/18] fix: failed download or unpack left truncated file
 taken as up to date one

---
 pkg/opencorpora/loader.go | 56 ++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 8f0f990..21f7571 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -19,6 +19,9 @@ import (
 	"github.com/amarin/gomorphy/pkg/common"
 )
 
+// partialSuffix marks files being written.
+const partialSuffix = ".part"
+
 // Loader provides OpenCorpora dictionary parsing utilities.
 type Loader struct {
 	logging.Logger
@@ -165,6 +168,32 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 	return false, nil // site version is older then local
 }
 
+// storeFile stores data into specified file. Target file appears at its path only when whole data stored.
+func storeFile(filePath string, data io.Reader) (err error) {
+	partialPath := filePath + partialSuffix
+
+	file, err := os.Create(partialPath)
+	if err != nil {
+		return err
+	}
+
+	_, err = io.Copy(file, data) // nolint:gosec
+
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(partialPath, filePath)
+	}
+
+	if err != nil {
+		_ = os.Remove(partialPath)
+	}
+
+	return err
+}
+
 func (loader Loader) DownloadUpdate() (updated bool, err error) {
 	updateRequired, err := loader.IsUpdateRequired()
 
@@ -195,19 +224,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
 	}
 
-	// Create a empty file
-	file, err := os.Create(loader.downloadedFilePath())
-	if err != nil {
-		return false, err
-	}
-
-	defer func() {
-		if file != nil {
-			_ = file.Close()
-		}
-	}()
-
-	if _, err = io.Copy(file, response.Body); err != nil {
+	if err = storeFile(loader.downloadedFilePath(), response.Body); err != nil {
 		return false, err
 	}
 
@@ -218,7 +235,6 @@ func (loader Loader) UnpackUpdate() (err error) {
 	var (
 		source     io.ReadCloser
 		bzipSource io.Reader
-		target     io.WriteCloser
 	)
 
 	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
@@ -233,17 +249,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	bzipSource = bzip2.NewReader(source)
 
-	if target, err = os.Create(loader.unpackedFilePath()); err != nil {
-		return err
-	}
-
-	defer func() { _ = target.Close() }()
-
-	if _, err = io.Copy(target, bzipSource); err != nil { // nolint:gosec
-		return err
-	}
-
-	return nil
+	return storeFile(loader.unpackedFilePath(), bzipSource)
 }
 
 func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
-- 
2.43.0


From 7fca7b0fddc4bb7ffe52d3f732faafad7c4f5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 18/18] fix: index save lost close errors and left incomplete
 index when interrupted

---
 pkg/opencorpora/loader.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 21f7571..dbd6771 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -264,7 +264,7 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 
 	defer func() {
 		loader.Debugf("loading finished %v", fromFile)
-		if closeErr := reader.Close(); err != nil {
+		if closeErr := reader.Close(); closeErr != nil {
 			loader.Warnf("close index: %v", closeErr)
 		}
 
@@ -287,24 +287,37 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 }
 
 func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err error) {
-	var writer *binutils.BinaryWriter
+	var (
+		writer *binutils.BinaryWriter
+		saved  bool
+	)
+
+	partialPath := toFile + partialSuffix
 
 	loader.Info("save compiled index")
 
-	if writer, err = binutils.CreateFile(toFile); err != nil {
+	if writer, err = binutils.CreateFile(partialPath); err != nil {
 		return fmt.Errorf("%w: create index: %v", Error, err)
 	}
 
 	defer func() {
 		loader.Debugf("finishing %v", toFile)
-		if closeErr := writer.Close(); err != nil {
-			loader.Warnf("close index: %v", closeErr)
+		if closeErr := writer.Close(); closeErr != nil && err == nil {
+			err = fmt.Errorf("%w: close index: %v", Error, closeErr)
 		}
 
-		if err != nil {
-			loader.Error(err.Error())
+		if saved && err == nil {
+			if renameErr := os.Rename(partialPath, toFile); renameErr != nil {
+				err = fmt.Errorf("%w: rename index: %v", Error, renameErr)
+			}
+		}
 
-			if removeErr := os.Remove(toFile); removeErr != nil {
+		if !saved || err != nil {
+			if err != nil {
+				loader.Error(err.Error())
+			}
+
+			if removeErr := os.Remove(partialPath); removeErr != nil {
 				loader.Warnf("remove incomplete index: %v", removeErr)
 			}
 		} else {
@@ -320,6 +333,8 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 		return fmt.Errorf("%w: save index: %v", Error, err)
 	}
 
+	saved = true
+
 	return nil
 }
 
-- 
2.43.0

