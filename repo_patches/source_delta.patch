From 9d4604018c62a1f656e322e19230650010c98c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 01/11] fix: search: use the next leaf when the range starts in
 a gap between two leafs

The controller of the previous leaf was kept after moving on to the next
leaf, so the first key of the range was read from the wrong leaf and a
range falling between two leafs yielded records outside of it.
---
 bptree/bptree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 014004e..deb92d2 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -765,6 +765,7 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 			}
 
 			minLeafAddr = leafHeader(minLeafController).NextAddr()
+			minLeafController = bpt.getLeafController(minLeafAddr)
 			minRecordIndex = 0
 		}
 	}
-- 
2.43.0


From cea5bc931a2d38bb47ffd9e49e58a961ed25bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 02/11] fix: search: a range of one absent key is empty

The range [x...x] yielded the successor of x when x was absent.
---
 bptree/bptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index deb92d2..c8d800a 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -771,6 +771,10 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 	}
 
 	if d == 0 {
+		if !ok3 {
+			return 0, 0, 0, 0, false
+		}
+
 		return minLeafAddr, minRecordIndex, minLeafAddr, minRecordIndex, true
 	}
 
-- 
2.43.0


From f90d4d16f52c5c0f1fc41d7769889f274b7be6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 03/11] fix: leaf: judge a shift by the records actually
 shifted

The record which ends the counting is not shifted, but was taken into
account when deciding whether the shift suffices, so a leaf could stay
overloaded and overflow later on.
---
 bptree/leaf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bptree/leaf.go b/bptree/leaf.go
index a0c3bd8..37fa093 100644
--- a/bptree/leaf.go
+++ b/bptree/leaf.go
@@ -206,6 +206,9 @@ func (lc leafController) CountRecordsForShiftingToLeft(leftSibling leafControlle
 		loadSize2 += recordSize
 
 		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+			// the last record is not going to be shifted
+			loadSize1 += recordSize
+			loadSize2 -= recordSize
 			break
 		}
 
@@ -240,6 +243,9 @@ func (lc leafController) CountRecordsForShiftingToRight(rightSibling leafControl
 		loadSize2 += recordSize
 
 		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+			// the last record is not going to be shifted
+			loadSize1 += recordSize
+			loadSize2 -= recordSize
 			break
 		}
 
-- 
2.43.0


From 194c501faa0d4c5b910fa641bc627eb7829c03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 04/11] fix: nonleaf: judge a shift by the children actually
 shifted

The child which ends the counting is not shifted, but was taken into
account when deciding whether the shift suffices, and the key taken over
from the parent was not accounted for, so a non-leaf could stay or become
overloaded and overflow later on.
---
 bptree/nonleaf.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bptree/nonleaf.go b/bptree/nonleaf.go
index f3c0f4d..c51d23a 100644
--- a/bptree/nonleaf.go
+++ b/bptree/nonleaf.go
@@ -205,6 +205,8 @@ func (nlc nonLeafController) MergeFromRight(parent nonLeafController, index int,
 func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafController) int {
 	loadSize1 := nlc.GetLoadSize() - (nonLeafChildHeaderSize + len(nlc.GetKey(0)))
 	loadSize2 := leftSibling.GetLoadSize() + nonLeafChildHeaderSize
+	loadSize2 += maxKeySize // the key of the parent is going to be taken over
+	loadSize1X, loadSize2X := loadSize1, loadSize2
 	childCount := 0
 
 	for i := 1; ; i++ {
@@ -213,6 +215,7 @@ func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafC
 		}
 
 		childCount++
+		loadSize1X, loadSize2X = loadSize1, loadSize2
 
 		if loadSize1 <= loadSize2 {
 			break
@@ -223,6 +226,9 @@ func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafC
 		loadSize2 += childSize
 	}
 
+	// only the children counted are going to be shifted
+	loadSize1, loadSize2 = loadSize1X, loadSize2X
+
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
 		return 0
 	}
@@ -243,6 +249,8 @@ func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLea
 	lastChildSize := nonLeafChildHeaderSize + len(nlc.GetKey(n-1))
 	loadSize1 := nlc.GetLoadSize() - lastChildSize
 	loadSize2 := rightSibling.GetLoadSize() + nonLeafChildHeaderSize
+	loadSize2 += maxKeySize // the key of the parent is going to be taken over
+	loadSize1X, loadSize2X := loadSize1, loadSize2
 	childCount := 0
 
 	for i := n - 2; ; i-- {
@@ -251,6 +259,7 @@ func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLea
 		}
 
 		childCount++
+		loadSize1X, loadSize2X = loadSize1, loadSize2
 
 		if loadSize1 <= loadSize2 {
 			break
@@ -262,6 +271,9 @@ func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLea
 		lastChildSize = childSize
 	}
 
+	// only the children counted are going to be shifted
+	loadSize1, loadSize2 = loadSize1X, loadSize2X
+
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
 		return 0
 	}
-- 
2.43.0


From f1cecb58727a9db1ab2d54bede51cd518104f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 05/11] fix: bptree: do not treat a leaf as a non-leaf after
 decreasing the height

When the root has been removed the record path gets shorter, so that the
index of the last non-leaf may designate a leaf, whose header was taken
for the one of a non-leaf; at addresses above 4 GiB this led to a split
of garbage.
---
 bptree/bptree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index c8d800a..57ad63a 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -464,6 +464,11 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 }
 
 func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
+	if i >= len(*recordPath)-1 {
+		// the height has been decreased meanwhile, there is a leaf at i
+		return
+	}
+
 	nonLeafAddr := (*recordPath)[i].NodeAddr
 	nonLeafController1 := bpt.getNonLeafController(nonLeafAddr)
 
-- 
2.43.0


From 9176b2244e0abb733eddde6ff562eb87b41822fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 06/11] fix: bptree: release all space of a non-empty tree on
 destroying

Only the root was released, the other nodes as well as the overflows of
keys and values stayed allocated forever.
---
 bptree/bptree.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 57ad63a..eddd349 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -38,6 +38,7 @@ func (bpt *BPTree) Create() {
 
 // Destroy destroys the B+ tree on the file storage.
 func (bpt *BPTree) Destroy() {
+	bpt.destroyDescendants(bpt.rootAddr, 1)
 	bpt.destroyLeaf(bpt.rootAddr)
 	*bpt = *new(BPTree).Init(bpt.fileStorage)
 }
@@ -725,6 +726,28 @@ func (bpt *BPTree) decreaseHeight() {
 	bpt.height--
 }
 
+func (bpt *BPTree) destroyDescendants(nodeAddr int64, nodeDepth int) {
+	if nodeDepth == bpt.height {
+		for i := bpt.getLeafController(nodeAddr).NumberOfRecords() - 1; i >= 0; i-- {
+			keyFactory{bpt.fileStorage}.DestroyKey(bpt.getLeafController(nodeAddr).GetKey(i))
+			valueFactory{bpt.fileStorage}.DestroyValue(bpt.getLeafController(nodeAddr).GetValue(i))
+		}
+
+		return
+	}
+
+	for i := bpt.getNonLeafController(nodeAddr).NumberOfChildren() - 1; i >= 0; i-- {
+		childAddr := bpt.getNonLeafController(nodeAddr).GetChildAddr(i)
+		bpt.destroyDescendants(childAddr, nodeDepth+1)
+
+		if nodeDepth+1 == bpt.height {
+			bpt.destroyLeaf(childAddr)
+		} else {
+			bpt.destroyNonLeaf(childAddr)
+		}
+	}
+}
+
 func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int, bool) {
 	if bpt.recordCount == 0 {
 		return 0, 0, 0, 0, false
-- 
2.43.0


From a72e249cf0e33024ec4bfa3015c13a18df2fae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 07/11] fix: hashmap: release all space of a non-empty hash map
 on destroying

Only the array of slot directories and the first slot directory were
released, the slots and the other slot directories stayed allocated
forever.
---
 hashmap/hashmap.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index dd3a259..7f9ca54 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -46,6 +46,14 @@ func (hm *HashMap) Create() {
 
 // Destroy destroys the hash map on the file storage.
 func (hm *HashMap) Destroy() {
+	for i := 0; i < hm.slotCount; i++ {
+		hm.eraseSlot(hm.locateSlotAddr(i).Get(hm.fileStorage))
+	}
+
+	for i := 1; i < hm.slotDirCount; i++ {
+		hm.fileStorage.FreeSpace(hm.locateSlotDirAddr(i).Get(hm.fileStorage))
+	}
+
 	slotDirAddr := int64(binary.BigEndian.Uint64(hm.fileStorage.AccessSpace(hm.slotDirsAddr)))
 	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
 	hm.fileStorage.FreeSpace(slotDirAddr)
-- 
2.43.0


From f2fdf777a357d0c68cd1ef7f147f9562d5b3f246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 08/11] fix: hashmap: keep keys and values handed out apart

The keys and values delivered by FetchItem share one buffer, so that
appending to a key overwrote the value delivered together with it and
items yet to be delivered by the same cursor.
---
 hashmap/hashmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index 7f9ca54..f9ab39b 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -628,6 +628,9 @@ func unpackSlot(slot *protocol.HashSlot) []hashItem {
 		i += int(itemInfo.KeySize)
 		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]
 		i += int(itemInfo.ValueSize)
+		// appending to a slice must not overwrite the one next to it
+		item.Key = item.Key[:len(item.Key):len(item.Key)]
+		item.Value = item.Value[:len(item.Value):len(item.Value)]
 	}
 
 	// cost of optimization for binary size
-- 
2.43.0


From f14bb2e525033ea8944a40024007b2b0091d4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 09/11] fix: hashmap: do not write to an accessor invalidated
 by an allocation

On creating a hash map the address of the first slot directory was written
via the accessor of the array of slot directories, obtained before the
slot directory was allocated. When that allocation moves the mapping of
the file, the write goes to memory no longer mapped, or is lost.
---
 hashmap/hashmap.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index f9ab39b..fd15729 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -34,8 +34,10 @@ func (hm *HashMap) Init(fileStorage *fsm.FileStorage) *HashMap {
 
 // Create creates the hash map on the file storage.
 func (hm *HashMap) Create() {
-	slotDirsAddr, buffer1 := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
+	slotDirsAddr, _ := hm.fileStorage.AllocateSpace(8 << minMaxSlotDirCountShift)
 	slotDirAddr, buffer2 := hm.fileStorage.AllocateSpace(8 << slotDirLengthShift)
+	// the allocation above may have invalidated the accessor of the first space
+	buffer1 := hm.fileStorage.AccessSpace(slotDirsAddr)
 	binary.BigEndian.PutUint64(buffer1, uint64(slotDirAddr))
 	binary.BigEndian.PutUint64(buffer2, ^uint64(0))
 	hm.slotDirsAddr = slotDirsAddr
-- 
2.43.0


From 337f4edfd9ef859c09bd86dd84c4547bd710ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 10/11] fix: partial reads at offsets close to the maximum
 integer do not panic

The sum of the offset and the buffer's length wrapped around, so that the
stored prefix of a long key or value was sliced at the offset.
---
 bptree/key.go   | 2 +-
 bptree/value.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bptree/key.go b/bptree/key.go
index d8f8c1f..54a6148 100644
--- a/bptree/key.go
+++ b/bptree/key.go
@@ -86,7 +86,7 @@ func (kf keyFactory) ReadKey(key key, dataOffset int, buffer []byte) int {
 		return copy(buffer, key[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= keyPrefixSize {
+	if dataOffset <= keyPrefixSize-len(buffer) {
 		return copy(buffer, key[dataOffset:])
 	}
 
diff --git a/bptree/value.go b/bptree/value.go
index 373d116..eff82b9 100644
--- a/bptree/value.go
+++ b/bptree/value.go
@@ -49,7 +49,7 @@ func (vf valueFactory) ReadValue(value value, dataOffset int, buffer []byte) int
 		return copy(buffer, value[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= valuePrefixSize {
+	if dataOffset <= valuePrefixSize-len(buffer) {
 		return copy(buffer, value[dataOffset:])
 	}
 
-- 
2.43.0


From de65ce726ce026a3299249e0d4c3dc66db48b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 11/11] fix: bptree: Fprint to a writer which uses the same
 storage

---
 bptree/fprint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bptree/fprint.go b/bptree/fprint.go
index ee0649b..264aaec 100644
--- a/bptree/fprint.go
+++ b/bptree/fprint.go
@@ -16,6 +16,8 @@ func (bpt *BPTree) doFprint(writer io.Writer, nodeAddr int64, nodeDepth int, pre
 		n := leafController.NumberOfRecords()
 
 		for i := 0; i < n; i++ {
+			// the storage may have been moved by what the writer did
+			leafController = bpt.getLeafController(nodeAddr)
 			key := keyFactory{bpt.fileStorage}.ReadKeyAll(leafController.GetKey(i))
 			value := valueFactory{bpt.fileStorage}.ReadValueAll(leafController.GetValue(i))
 			var err error
@@ -39,20 +41,22 @@ func (bpt *BPTree) doFprint(writer io.Writer, nodeAddr int64, nodeDepth int, pre
 		}
 	} else {
 		nonLeafController := bpt.getNonLeafController(nodeAddr)
+		n := nonLeafController.NumberOfChildren()
 
 		if err := bpt.doFprint(writer, nonLeafController.GetChildAddr(0), nodeDepth+1, prefix+"┬─", newLine+"│ "); err != nil {
 			return err
 		}
 
-		n := nonLeafController.NumberOfChildren()
-
 		for i := 1; i < n; i++ {
+			// the storage may have been moved by what the writer did
+			nonLeafController = bpt.getNonLeafController(nodeAddr)
 			key := keyFactory{bpt.fileStorage}.ReadKeyAll(nonLeafController.GetKey(i))
 
 			if _, err := fmt.Fprintf(writer, "%s├─● %q", newLine, key); err != nil {
 				return err
 			}
 
+			nonLeafController = bpt.getNonLeafController(nodeAddr)
 			var prefix2, newLine2 string
 
 			if i == n-1 {
-- 
2.43.0

