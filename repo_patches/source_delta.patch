From 9c3afa0896ddf9e6b34276f2bbcda0bba5b5a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 01/34] fix: idxtable: an empty table accepts no id (size-1
 underflowed)

---
 pkg/idxtable/table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 8d6f0e2..d543ea3 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -46,8 +46,8 @@ type table[T1 any] struct {
 }
 
 func (r *table[T1]) validate(id uint64) error {
-	if id > r.size-1 {
-		return fmt.Errorf("id %d is bigger then max allowed entries: %d", id, r.size-1)
+	if id >= r.size {
+		return fmt.Errorf("id %d is outside the table, max allowed entries: %d", id, r.size)
 	}
 	return nil
 }
-- 
2.43.0


From 57af805128361443bf4ce56aefedd5192fe7c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 02/34] fix: idxtable: iterators no longer read the live map
 without the lock

---
 pkg/idxtable/table.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index d543ea3..0f6a7ae 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -151,14 +151,17 @@ func (r *table[T1]) Iterate() *Iterator[T1] {
 
 func (r *table[T1]) iterate() *Iterator[T1] {
 	keys := make([]uint64, 0, len(r.table))
-	for key := range r.table {
+	// the iterator outlives the lock, so it gets its own copy of the entries
+	table := make(map[uint64]Entry[T1], len(r.table))
+	for key, e := range r.table {
 		keys = append(keys, key)
+		table[key] = e
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}
 }
 
 func (r *table[T1]) IterateFree() *Iterator[T1] {
@@ -170,22 +173,19 @@ func (r *table[T1]) IterateFree() *Iterator[T1] {
 
 func (r *table[T1]) iterateFree() *Iterator[T1] {
 	var keys []uint64
-	table := map[uint64]T1{}
-
-	var d T1
 
 	for id := uint64(0); id < r.size; id++ {
 		_, exists := r.table[id]
 		if !exists {
 			keys = append(keys, id)
-			table[id] = d
 		}
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: r.table}
+	// free ids have no entry, the iterator must not share the live table
+	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: map[uint64]Entry[T1]{}}
 }
 
 func (r *table[T1]) Size() int {
-- 
2.43.0


From 4743b84f589d81b72431f4ff4eafe15cf16c7a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 03/34] fix: idxtable: GetAll no longer takes the read lock
 twice (deadlock with a waiting writer)

---
 pkg/idxtable/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 0f6a7ae..b12aeaa 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -319,7 +319,7 @@ func (r *table[T1]) GetAll() Entries[T1] {
 
 	entries := make([]Entry[T1], 0, len(r.table))
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Value())
 	}
-- 
2.43.0


From 2d5621e8ce992a5933df47809e72c5a99bb61b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 04/34] fix: idxtable: a range claim returns exactly the ids
 start..start+size-1

---
 pkg/idxtable/table.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index b12aeaa..81f8058 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -229,35 +229,25 @@ func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
 }
 
 func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
-	end := start + size - 1
-
-	if start > r.size-1 {
+	if size == 0 {
+		return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
+	}
+	if start >= r.size {
 		return nil, fmt.Errorf("start %d is bigger then max allowed entries: %d", start, r.size)
 	}
-	if end > r.size-1 {
-		return nil, fmt.Errorf("end %d is bigger then max allowed entries: %d", end, r.size)
+	if size > r.size-start {
+		return nil, fmt.Errorf("start %d, size %d is bigger then max allowed entries: %d", start, size, r.size)
 	}
 
 	entries := []uint64{}
-	free := r.iterateFree()
-	for free.Next() {
-		if free.ID() < start {
-			continue
-		}
-		switch {
-		case free.ID() == start:
-			entries = append(entries, free.ID())
-		case free.ID() > start && free.ID() < end:
-			if !free.IsConsecutive() {
-				return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", free.ID(), start, end)
-			}
-			entries = append(entries, free.ID())
-		default:
-			entries = append(entries, free.ID())
-			return entries, nil
+	for i := uint64(0); i < size; i++ {
+		id := start + i
+		if !r.isFree(id) {
+			return nil, fmt.Errorf("entry %d in use in range: start: %d, size %d", id, start, size)
 		}
+		entries = append(entries, id)
 	}
-	return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
+	return entries, nil
 }
 
 func (r *table[T1]) FindFreeSize(size uint64) ([]uint64, error) {
-- 
2.43.0


From f817ba89104f21db5515d720dd6b91a2247413b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 05/34] fix: idxtable: finding free ids no longer enumerates
 the whole capacity

---
 pkg/idxtable/table.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 81f8058..3d1bd64 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -78,9 +78,8 @@ func (r *table[T1]) ClaimDynamic(d T1) (Entry[T1], error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	free := r.iterateFree()
-	if free.Next() {
-		e := NewEntry(free.ID(), d)
+	if id, ok := r.firstFree(); ok {
+		e := NewEntry(id, d)
 		if err := r.add(e); err != nil {
 			return nil, err
 		}
@@ -214,14 +213,25 @@ func (r *table[T1]) isFree(id uint64) bool {
 }
 
 func (r *table[T1]) FindFree() (uint64, error) {
-	free := r.IterateFree()
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	if free.Next() {
-		return free.ID(), nil
+	if id, ok := r.firstFree(); ok {
+		return id, nil
 	}
 	return 0, fmt.Errorf("no free entry found")
 }
 
+// firstFree returns the lowest free id; it looks at no more than len(r.table)+1 ids
+func (r *table[T1]) firstFree() (uint64, bool) {
+	for id := uint64(0); id < r.size; id++ {
+		if r.isFree(id) {
+			return id, true
+		}
+	}
+	return 0, false
+}
+
 func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
@@ -260,14 +270,16 @@ func (r *table[T1]) findFreeSize(size uint64) ([]uint64, error) {
 	if size > r.size {
 		return nil, fmt.Errorf("size %d is bigger then max allowed entries: %d", size, r.size)
 	}
-	entries := []uint64{}
-	free := r.iterateFree()
-	i := uint64(0)
-	for free.Next() {
-		i++
-		entries = append(entries, free.ID())
-		if i > size-1 {
-			return entries, nil
+	if size > 0 && size <= r.size-uint64(len(r.table)) {
+		entries := []uint64{}
+		for id := uint64(0); id < r.size; id++ {
+			if !r.isFree(id) {
+				continue
+			}
+			entries = append(entries, id)
+			if uint64(len(entries)) == size {
+				return entries, nil
+			}
 		}
 	}
 	return nil, fmt.Errorf("could not find free entries that fit in size %d", size)
-- 
2.43.0


From 1b851c9d0b77ce67122767407aeac862f891baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:29 +0000
Subject: [PATCH 06/34] fix: table16, table32: a full range no longer has
 capacity 0

---
 pkg/table/table16/table16.go | 2 +-
 pkg/table/table32/table32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index acf36cb..f3171c3 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -14,7 +14,7 @@ import (
 func New(start, end uint16) table.Table {
 	return &table16{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end-start) + 1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8076a79..8976bc0 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -13,7 +13,7 @@ import (
 func New(start, end uint32) table.Table {
 	return &table32{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end-start) + 1,
 		),
 		start: start,
 		end:   end,
-- 
2.43.0


From 732d0b0f9d41cd83f5b9e25484328c2ee762b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 07/34] fix: table64: the full 64 bit range no longer has
 capacity 0

---
 pkg/table/table64/table64.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 40f4fb6..287ee38 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -2,6 +2,7 @@ package table64
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -11,10 +12,13 @@ import (
 )
 
 func New(start, end uint64) table.Table {
+	size := end - start
+	if size != math.MaxUint64 {
+		// the capacity of the full 64 bit range does not fit in a uint64
+		size++
+	}
 	return &table64{
-		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
-		),
+		table: idxtable.NewTable[tree.Entry](size),
 		start: start,
 		end:   end,
 	}
-- 
2.43.0


From b7925bd0362edd6340eee75547c77e9e10445355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 08/34] fix: table16, table32, table64: Get returns the
 external id, as GetAll does

---
 pkg/table/table16/table16.go | 3 ++-
 pkg/table/table32/table32.go | 3 ++-
 pkg/table/table64/table64.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index f3171c3..4c2c825 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -38,7 +38,8 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id16.NewID(uint16(id), id16.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8976bc0..d8fd41b 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -37,7 +37,8 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id32.NewID(uint32(id), id32.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 287ee38..92d0ae3 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -41,7 +41,8 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id64.NewID(uint64(id), id64.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
-- 
2.43.0


From d29b62667ccceef4205a2db576c5c9c53155df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 09/34] fix: table16, table32, table64: ClaimFree retries when
 another caller took the id

---
 pkg/table/table16/table16.go | 13 ++++++++++---
 pkg/table/table32/table32.go | 13 ++++++++++---
 pkg/table/table64/table64.go | 13 ++++++++++---
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index 4c2c825..f4814d4 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -61,10 +61,17 @@ func (r *table16) ClaimFree(labels labels.Set) (tree.Entry, error) {
 	// Validate input
 
 	id, err := r.FindFree()
-	if err != nil {
-		return nil, err
+	for err == nil {
+		if err := r.validateID(id); err != nil {
+			return nil, err
+		}
+		if r.Claim(uint64(id), labels) == nil {
+			break
+		}
+		// somebody else claimed the id in the meantime, look for another one
+		id, err = r.FindFree()
 	}
-	if err := r.Claim(uint64(id), labels); err != nil {
+	if err != nil {
 		return nil, err
 	}
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index d8fd41b..7a8c12c 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -60,10 +60,17 @@ func (r *table32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 	// Validate input
 
 	id, err := r.FindFree()
-	if err != nil {
-		return nil, err
+	for err == nil {
+		if err := r.validateID(id); err != nil {
+			return nil, err
+		}
+		if r.Claim(id, labels) == nil {
+			break
+		}
+		// somebody else claimed the id in the meantime, look for another one
+		id, err = r.FindFree()
 	}
-	if err := r.Claim(id, labels); err != nil {
+	if err != nil {
 		return nil, err
 	}
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 92d0ae3..6544a25 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -64,10 +64,17 @@ func (r *table64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 	// Validate input
 
 	id, err := r.FindFree()
-	if err != nil {
-		return nil, err
+	for err == nil {
+		if err := r.validateID(id); err != nil {
+			return nil, err
+		}
+		if r.Claim(id, labels) == nil {
+			break
+		}
+		// somebody else claimed the id in the meantime, look for another one
+		id, err = r.FindFree()
 	}
-	if err := r.Claim(id, labels); err != nil {
+	if err != nil {
 		return nil, err
 	}
 	treeId := id64.NewID(uint64(id), id64.IDBitSize)
-- 
2.43.0


From 8c245e66a38bb50adf9b0427a4460c96dab4a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 10/34] fix: iptable: the capacity of a large IPv6 range no
 longer wraps

---
 pkg/iptable/iptable.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/iptable/iptable.go b/pkg/iptable/iptable.go
index 4d78b9d..3e613e3 100644
--- a/pkg/iptable/iptable.go
+++ b/pkg/iptable/iptable.go
@@ -2,6 +2,7 @@ package iptable
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"net/netip"
 
@@ -30,7 +31,7 @@ type IPTable interface {
 func New(from, to netip.Addr) IPTable {
 	return &ipTable{
 		table: idxtable.NewTable[table.Route](
-			uint64(numIPs(from, to)),
+			numIPs(from, to),
 		),
 		ipRange: netipx.IPRangeFrom(from, to),
 	}
@@ -166,13 +167,16 @@ func calculateIndex(ip, start netip.Addr) uint64 {
 	return new(big.Int).Sub(ipToInt(ip), ipToInt(start)).Uint64()
 }
 
-func numIPs(startIP, endIP netip.Addr) int {
+func numIPs(startIP, endIP netip.Addr) uint64 {
 	// Convert IP addresses to big integers
 	start := ipToInt(startIP)
 	end := ipToInt(endIP)
 
 	diff := new(big.Int).Sub(end, start)
-	return int(diff.Int64()) + 1 // Add 1 to include the start IP
+	if diff.Add(diff, big.NewInt(1)); !diff.IsUint64() { // Add 1 to include the start IP
+		return math.MaxUint64
+	}
+	return diff.Uint64()
 }
 
 func ipToInt(ip netip.Addr) *big.Int {
-- 
2.43.0


From ef470e28c5204781a9cfd9b06c099aff37a74ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 11/34] fix: iptable: addresses 2^64 apart no longer share one
 entry

---
 pkg/iptable/iptable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/iptable/iptable.go b/pkg/iptable/iptable.go
index 3e613e3..bb16500 100644
--- a/pkg/iptable/iptable.go
+++ b/pkg/iptable/iptable.go
@@ -159,6 +159,9 @@ func (r *ipTable) validateIP(addr string) (netip.Addr, error) {
 	if !r.ipRange.Contains(claimIP) {
 		return netip.Addr{}, fmt.Errorf("ip address %s, does not fit in the range from %s to %s", addr, r.ipRange.From().String(), r.ipRange.To().String())
 	}
+	if diff := new(big.Int).Sub(ipToInt(claimIP), ipToInt(r.ipRange.From())); !diff.IsUint64() {
+		return netip.Addr{}, fmt.Errorf("ip address %s, is too far from %s to be indexed", addr, r.ipRange.From().String())
+	}
 	return claimIP, nil
 }
 
-- 
2.43.0


From 9988f0d575b240b12bca786f4faad07dd0931f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 12/34] fix: tree: nodes of a 64 bit tree no longer share one
 value slot

---
 pkg/tree/tree.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 75d62d0..386ee51 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -78,12 +78,18 @@ func (r *Tree[T]) Clone() *Tree[T] {
 	return ret
 }
 
+// valKey returns the key of the first value of a node. It must not depend on the
+// id length: shifting by 64 bits would give all the nodes the same key.
+func valKey(nodeIndex uint) uint64 {
+	return uint64(nodeIndex) << 32
+}
+
 // add a tag to the node at the input index
 // - if matchFunc is non-nil, it is used to determine equality (if nil, no existing tag match)
 // - if udpateFunc is non-nil, it is used to update the tag if it already exists (if nil, the provided tag is used)
 // - returns whether the tag count was increased
 func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], updateFunc UpdatesFunc[T]) bool {
-	key := (uint64(nodeIndex) << uint64(r.length))
+	key := valKey(nodeIndex)
 	valCount := r.nodes[nodeIndex].ValCount
 	if matchFunc != nil {
 		// need to check if this value already exists
@@ -103,8 +109,8 @@ func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], update
 
 func (r *Tree[T]) moveTags(fromIndex uint, toIndex uint) {
 	tagCount := r.nodes[fromIndex].ValCount
-	fromKey := uint64(fromIndex) << uint64(r.length)
-	toKey := uint64(toIndex) << uint64(r.length)
+	fromKey := valKey(fromIndex)
+	toKey := valKey(toIndex)
 	for i := 0; i < tagCount; i++ {
 		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]
 		delete(r.vals, fromKey+uint64(i))
@@ -123,7 +129,7 @@ func (r *Tree[T]) valsForNode(ret []T, nodeIndex uint, filterFunc FilterFunc[T])
 
 	// TODO: clean up the typing in here, between uint, uint64
 	valCount := r.nodes[nodeIndex].ValCount
-	key := uint64(nodeIndex) << uint64(r.length)
+	key := valKey(nodeIndex)
 	for i := 0; i < valCount; i++ {
 		tag := r.vals[key+uint64(i)]
 		if filterFunc == nil || filterFunc(tag) {
@@ -146,7 +152,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 	// delete tags
 	// TODO: this could be done smarter - delete in place?
 	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
-		delete(r.vals, (uint64(nodeIndex)<<uint64(r.length))+uint64(i))
+		delete(r.vals, valKey(nodeIndex)+uint64(i))
 	}
 	r.nodes[nodeIndex].ValCount = 0
 
-- 
2.43.0


From 18f7ddb6cb087daf856779bda446d153aaef1a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 13/34] fix: tree: a clone keeps the id length and bit test of
 the original

---
 pkg/tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 386ee51..9ebe64f 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -65,6 +65,9 @@ func NewTree[T any](name string, isLeftBitSetFn IsLeftBitSetFn, length uint8) *T
 // - Note: the items in the tree are not deep copied
 func (r *Tree[T]) Clone() *Tree[T] {
 	ret := &Tree[T]{
+		name:             r.name,
+		isLeftBitSetFn:   r.isLeftBitSetFn,
+		length:           r.length,
 		nodes:            make([]treeNode[T], len(r.nodes), cap(r.nodes)),
 		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),
 		vals:             make(map[uint64]T, len(r.vals)),
-- 
2.43.0


From a304082fee63269493d5efc3ab497d6276cd3586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 14/34] fix: tree16, tree32, tree64: Get, Children and Parents
 no longer take the read lock twice

---
 pkg/tree/tree16/tree16.go | 11 ++++++++---
 pkg/tree/tree32/tree32.go | 11 ++++++++---
 pkg/tree/tree64/tree64.go | 11 ++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index db8d0cd..3109cdd 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -44,7 +44,7 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -178,7 +178,7 @@ func (r *tree16) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -195,7 +195,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
@@ -244,6 +244,11 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate must be called with the lock held
+func (r *tree16) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index a631a09..987e603 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -42,7 +42,7 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -177,7 +177,7 @@ func (r *tree32) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -194,7 +194,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
@@ -243,6 +243,11 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate must be called with the lock held
+func (r *tree32) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 769c939..a549ad4 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -42,7 +42,7 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -178,7 +178,7 @@ func (r *tree64) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -195,7 +195,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
@@ -244,6 +244,11 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate must be called with the lock held
+func (r *tree64) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
-- 
2.43.0


From 4e48119f655f526b46c6fe42a96f55b0ca3f4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 15/34] fix: tree16, tree32, tree64: listings hold the read
 lock while they walk the tree

---
 pkg/tree/tree16/tree16.go | 17 +++++++++++------
 pkg/tree/tree32/tree32.go | 17 +++++++++++------
 pkg/tree/tree64/tree64.go | 17 +++++++++++------
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 3109cdd..b912fc3 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -208,10 +208,9 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
-	for iter.Next() {
-		if selector.Matches(iter.Entry().Labels()) {
-			entries = append(entries, iter.Entry())
+	for _, e := range r.GetAll() {
+		if selector.Matches(e.Labels()) {
+			entries = append(entries, e)
 		}
 	}
 
@@ -221,7 +220,10 @@ func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 func (r *tree16) GetAll() tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -232,7 +234,10 @@ func (r *tree16) GetAll() tree.Entries {
 func (r *tree16) Size() int {
 	var size int
 
-	iter := r.Iterate()
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 987e603..f7ec591 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -207,10 +207,9 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
-	for iter.Next() {
-		if selector.Matches(iter.Entry().Labels()) {
-			entries = append(entries, iter.Entry())
+	for _, e := range r.GetAll() {
+		if selector.Matches(e.Labels()) {
+			entries = append(entries, e)
 		}
 	}
 
@@ -220,7 +219,10 @@ func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 func (r *tree32) GetAll() tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -231,7 +233,10 @@ func (r *tree32) GetAll() tree.Entries {
 func (r *tree32) Size() int {
 	var size int
 
-	iter := r.Iterate()
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index a549ad4..21c72e2 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -208,10 +208,9 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
-	for iter.Next() {
-		if selector.Matches(iter.Entry().Labels()) {
-			entries = append(entries, iter.Entry())
+	for _, e := range r.GetAll() {
+		if selector.Matches(e.Labels()) {
+			entries = append(entries, e)
 		}
 	}
 
@@ -221,7 +220,10 @@ func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 func (r *tree64) GetAll() tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -232,7 +234,10 @@ func (r *tree64) GetAll() tree.Entries {
 func (r *tree64) Size() int {
 	var size int
 
-	iter := r.Iterate()
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
-- 
2.43.0


From 1db30da1dfefcb7d0ea91a3e05f42ccc7b605713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 16/34] fix: tree16, tree32, tree64: iterators no longer walk
 the live tree without the lock

---
 pkg/tree/tree16/tree16.go | 5 ++++-
 pkg/tree/tree32/tree32.go | 5 ++++-
 pkg/tree/tree64/tree64.go | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index b912fc3..bad2db7 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -249,7 +249,10 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.iterate()
+	// the iterator outlives the lock, so it walks a copy of the tree
+	return &gtree.GTreeIterator{
+		Iter: r.tree.Clone().Iterate(),
+	}
 }
 
 // iterate must be called with the lock held
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index f7ec591..278b47f 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -248,7 +248,10 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.iterate()
+	// the iterator outlives the lock, so it walks a copy of the tree
+	return &gtree.GTreeIterator{
+		Iter: r.tree.Clone().Iterate(),
+	}
 }
 
 // iterate must be called with the lock held
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 21c72e2..e5c4310 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -249,7 +249,10 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.iterate()
+	// the iterator outlives the lock, so it walks a copy of the tree
+	return &gtree.GTreeIterator{
+		Iter: r.tree.Clone().Iterate(),
+	}
 }
 
 // iterate must be called with the lock held
-- 
2.43.0


From 6f600e33136082e2aef2d32c6fa0b49b59cf3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 17/34] fix: tree16, tree32, tree64: Clone holds the read lock
 while it copies

---
 pkg/tree/tree16/tree16.go | 3 +++
 pkg/tree/tree32/tree32.go | 3 +++
 pkg/tree/tree64/tree64.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index bad2db7..665b1e7 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -32,6 +32,9 @@ type tree16 struct {
 }
 
 func (r *tree16) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree16{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 278b47f..e252199 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -30,6 +30,9 @@ type tree32 struct {
 }
 
 func (r *tree32) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree32{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index e5c4310..b57c2a4 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -30,6 +30,9 @@ type tree64 struct {
 }
 
 func (r *tree64) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree64{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
-- 
2.43.0


From 354ebe4dc60ec5e25088ca6b1341eaa2eb957a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 18/34] fix: tree16, tree32, tree64: ClaimFree searches and
 claims under one lock, and skips prefixes covering the whole tree

---
 pkg/tree/tree16/tree16.go | 11 +++++++----
 pkg/tree/tree32/tree32.go | 10 ++++++----
 pkg/tree/tree64/tree64.go | 10 ++++++----
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 665b1e7..f718381 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -80,12 +80,13 @@ func (r *tree16) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	id, err := r.findFree()
 	if err != nil {
 		return nil, fmt.Errorf("no free ids available, err: %s", err.Error())
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	if err := r.set(treeId, treeEntry); err != nil {
@@ -117,14 +118,16 @@ func (r *tree16) set(id tree.ID, e tree.Entry) error {
 	return nil
 }
 
+// findFree must be called with the lock held
 func (r *tree16) findFree() (uint16, error) {
 	rootID := id16.NewID(0, (id16.IDBitSize - r.length))
 	var bldr id16.IDSetBuilder
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.Children(rootID) {
-		bldr.RemoveId(e.ID())
+	iter := r.iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index e252199..2ae1122 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -78,6 +78,8 @@ func (r *tree32) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -86,8 +88,6 @@ func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -117,13 +117,15 @@ func (r *tree32) set(id tree.ID, e tree.Entry) error {
 	return nil
 }
 
+// findFree must be called with the lock held
 func (r *tree32) findFree() (uint32, error) {
 	rootID := id32.NewID(0, r.length)
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
-		bldr.RemoveId(e.ID())
+	iter := r.iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index b57c2a4..7799dc0 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -79,6 +79,8 @@ func (r *tree64) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -87,8 +89,6 @@ func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -118,13 +118,15 @@ func (r *tree64) set(id tree.ID, e tree.Entry) error {
 	return nil
 }
 
+// findFree must be called with the lock held
 func (r *tree64) findFree() (uint64, error) {
 	rootID := id64.NewID(0, (id64.IDBitSize - r.length))
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
-		bldr.RemoveId(e.ID())
+	iter := r.iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
-- 
2.43.0


From e67ee52894038b2e63dff0643bbf04feb89d7b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 19/34] fix: tree32: ClaimFree searches the whole capacity and
 nothing outside it

---
 pkg/tree/tree32/tree32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 2ae1122..b70b0b5 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -119,7 +119,7 @@ func (r *tree32) set(id tree.ID, e tree.Entry) error {
 
 // findFree must be called with the lock held
 func (r *tree32) findFree() (uint32, error) {
-	rootID := id32.NewID(0, r.length)
+	rootID := id32.NewID(0, id32.IDBitSize-r.length)
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-- 
2.43.0


From 979fdb2265267ffee93cccb55dc221beda6e483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 20/34] fix: tree16, tree32, tree64: ReleaseByLabel deletes
 exactly what matches at one instant

---
 pkg/tree/tree16/tree16.go | 38 ++++++++++++++++++++++++++++++++++----
 pkg/tree/tree32/tree32.go | 38 ++++++++++++++++++++++++++++++++++----
 pkg/tree/tree64/tree64.go | 38 ++++++++++++++++++++++++++++++++++----
 3 files changed, 102 insertions(+), 12 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index f718381..699ffd1 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -158,17 +158,47 @@ func (r *tree16) ReleaseID(id tree.ID) error {
 }
 
 func (r *tree16) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
+	for {
+		// the selector is code of the caller: it runs without the lock
+		entries := r.GetAll()
+		matches := tree.Entries{}
+		for _, e := range entries {
+			if selector.Matches(e.Labels()) {
+				matches = append(matches, e)
+			}
+		}
+		if len(matches) == 0 {
+			return nil
+		}
+		if done, err := r.delUnchanged(entries, matches); done {
+			return err
+		}
+	}
+}
 
+// delUnchanged deletes the matches if the tree still holds exactly the entries
+// they were selected from; it reports whether it did.
+func (r *tree16) delUnchanged(entries, matches tree.Entries) (bool, error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	for _, e := range entries {
+	i := 0
+	for iter := r.iterate(); iter.Next(); i++ {
+		// different labels can have the same text, so Equal is not enough
+		if i == len(entries) || !iter.Entry().Equal(entries[i]) ||
+			!labels.Equals(iter.Entry().Labels(), entries[i].Labels()) {
+			return false, nil
+		}
+	}
+	if i != len(entries) {
+		return false, nil
+	}
+	for _, e := range matches {
 		if err := r.del(e.ID().Copy(), e); err != nil {
-			return err
+			return true, err
 		}
 	}
-	return nil
+	return true, nil
 }
 
 func (r *tree16) del(id tree.ID, e tree.Entry) error {
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index b70b0b5..68fc703 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -156,17 +156,47 @@ func (r *tree32) ReleaseID(id tree.ID) error {
 }
 
 func (r *tree32) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
+	for {
+		// the selector is code of the caller: it runs without the lock
+		entries := r.GetAll()
+		matches := tree.Entries{}
+		for _, e := range entries {
+			if selector.Matches(e.Labels()) {
+				matches = append(matches, e)
+			}
+		}
+		if len(matches) == 0 {
+			return nil
+		}
+		if done, err := r.delUnchanged(entries, matches); done {
+			return err
+		}
+	}
+}
 
+// delUnchanged deletes the matches if the tree still holds exactly the entries
+// they were selected from; it reports whether it did.
+func (r *tree32) delUnchanged(entries, matches tree.Entries) (bool, error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	for _, e := range entries {
+	i := 0
+	for iter := r.iterate(); iter.Next(); i++ {
+		// different labels can have the same text, so Equal is not enough
+		if i == len(entries) || !iter.Entry().Equal(entries[i]) ||
+			!labels.Equals(iter.Entry().Labels(), entries[i].Labels()) {
+			return false, nil
+		}
+	}
+	if i != len(entries) {
+		return false, nil
+	}
+	for _, e := range matches {
 		if err := r.del(e.ID().Copy(), e); err != nil {
-			return err
+			return true, err
 		}
 	}
-	return nil
+	return true, nil
 }
 
 func (r *tree32) del(id tree.ID, e tree.Entry) error {
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 7799dc0..11b9bdb 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -157,17 +157,47 @@ func (r *tree64) ReleaseID(id tree.ID) error {
 }
 
 func (r *tree64) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
+	for {
+		// the selector is code of the caller: it runs without the lock
+		entries := r.GetAll()
+		matches := tree.Entries{}
+		for _, e := range entries {
+			if selector.Matches(e.Labels()) {
+				matches = append(matches, e)
+			}
+		}
+		if len(matches) == 0 {
+			return nil
+		}
+		if done, err := r.delUnchanged(entries, matches); done {
+			return err
+		}
+	}
+}
 
+// delUnchanged deletes the matches if the tree still holds exactly the entries
+// they were selected from; it reports whether it did.
+func (r *tree64) delUnchanged(entries, matches tree.Entries) (bool, error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	for _, e := range entries {
+	i := 0
+	for iter := r.iterate(); iter.Next(); i++ {
+		// different labels can have the same text, so Equal is not enough
+		if i == len(entries) || !iter.Entry().Equal(entries[i]) ||
+			!labels.Equals(iter.Entry().Labels(), entries[i].Labels()) {
+			return false, nil
+		}
+	}
+	if i != len(entries) {
+		return false, nil
+	}
+	for _, e := range matches {
 		if err := r.del(e.ID().Copy(), e); err != nil {
-			return err
+			return true, err
 		}
 	}
-	return nil
+	return true, nil
 }
 
 func (r *tree64) del(id tree.ID, e tree.Entry) error {
-- 
2.43.0


From 12a380448bc53cbebcfc521e27634ca1b23b5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 21/34] fix: tree16, tree32, tree64: ClaimRange rejects
 inverted and out of capacity ranges

---
 pkg/tree/tree16/tree16.go | 6 ++++++
 pkg/tree/tree32/tree32.go | 6 ++++++
 pkg/tree/tree64/tree64.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 699ffd1..b5eae22 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -100,6 +100,12 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !trange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	if err := r.validate(trange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 68fc703..aeb7db4 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -99,6 +99,12 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !vlanRange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	if err := r.validate(vlanRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 11b9bdb..8eb868b 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -100,6 +100,12 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !treeRange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	if err := r.validate(treeRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
-- 
2.43.0


From 48dab47a6e7c97eb4fc460091473f2041ebbafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 22/34] fix: tree16, tree32, tree64: ClaimRange holds the lock
 while it changes the tree

---
 pkg/tree/tree16/tree16.go | 3 +++
 pkg/tree/tree32/tree32.go | 3 +++
 pkg/tree/tree64/tree64.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index b5eae22..3c4feaf 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -110,6 +110,9 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	for _, treeId := range trange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index aeb7db4..76950c8 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -109,6 +109,9 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	for _, treeId := range vlanRange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 8eb868b..b3204a7 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -110,6 +110,9 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	for _, treeId := range treeRange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
-- 
2.43.0


From 6356870ab4a559fa932ca93da6ecb9442de4789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 23/34] fix: id64: ids longer than 32 bits can be masked

---
 pkg/tree/id64/id64.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/tree/id64/id64.go b/pkg/tree/id64/id64.go
index 6ac19b5..2f5fbb3 100644
--- a/pkg/tree/id64/id64.go
+++ b/pkg/tree/id64/id64.go
@@ -129,8 +129,8 @@ func (id myid64) Prev() tree.ID {
 // Prev returns the ID before id.
 // If there is none, it returns the ID zero value.
 func (id myid64) Mask(l uint8) (tree.ID, error) {
-	if l > 32 {
-		return nil, fmt.Errorf("length is too large, max 32, got: %d", l)
+	if l > IDBitSize {
+		return nil, fmt.Errorf("length is too large, max %d, got: %d", IDBitSize, l)
 	}
 	newid := uint64(myuint64(id.id).and(myuint64(mask6[uint32(l)])))
 	return myid64{id: newid, length: l}, nil
-- 
2.43.0


From 955c2cc19a89c0595cad60ecb7f0031675f38055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 24/34] fix: id64: Prev no longer truncates the id to 32 bits

---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 4aebcda..f0a2b11 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -28,7 +28,7 @@ func (u myuint64) not() myuint64 {
 
 // subOne returns u - 1.
 func (u myuint64) subOne() myuint64 {
-	lo, borrow := bits.Sub32(uint32(u), 1, 0)
+	lo, borrow := bits.Sub64(uint64(u), 1, 0)
 	return myuint64(lo - borrow)
 }
 
-- 
2.43.0


From fbb5297a42c76470812df7dbea09b317e09851e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 25/34] fix: id64: the mask of length 0 is zero

---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index f0a2b11..cdf2602 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -51,7 +51,7 @@ func (u myuint64) bitsClearedFrom(bit uint8) myuint64 {
 }
 
 var mask6 = [...]uint64{
-	0xffffffff00000000, //0
+	0x0000000000000000, //0
 	0x8000000000000000, //1
 	0xc000000000000000, //2
 	0xe000000000000000, //3
-- 
2.43.0


From 99d1c37315d574eeb861f11381ac7842e40e0217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 26/34] fix: id16, id32, id64: the id after the last one is the
 zero id, as documented

---
 pkg/tree/id16/myuint16.go | 4 ++--
 pkg/tree/id32/myuint32.go | 4 ++--
 pkg/tree/id64/myuint64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/id16/myuint16.go b/pkg/tree/id16/myuint16.go
index e1a2812..e6c35d3 100644
--- a/pkg/tree/id16/myuint16.go
+++ b/pkg/tree/id16/myuint16.go
@@ -32,8 +32,8 @@ func (u myuint16) subOne() myuint16 {
 
 // addOne returns u + 1.
 func (u myuint16) addOne() myuint16 {
-	lo, carry := Add16(uint16(u), 1, 0)
-	return myuint16(lo + carry)
+	lo, _ := Add16(uint16(u), 1, 0)
+	return myuint16(lo)
 }
 
 // Sub32 returns the difference of x, y and borrow, diff = x - y - borrow.
diff --git a/pkg/tree/id32/myuint32.go b/pkg/tree/id32/myuint32.go
index 447664b..18e0018 100644
--- a/pkg/tree/id32/myuint32.go
+++ b/pkg/tree/id32/myuint32.go
@@ -34,8 +34,8 @@ func (u myuint32) subOne() myuint32 {
 
 // addOne returns u + 1.
 func (u myuint32) addOne() myuint32 {
-	lo, carry := bits.Add32(uint32(u), 1, 0)
-	return myuint32(lo + carry)
+	lo, _ := bits.Add32(uint32(u), 1, 0)
+	return myuint32(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index cdf2602..6c3fa05 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -34,8 +34,8 @@ func (u myuint64) subOne() myuint64 {
 
 // addOne returns u + 1.
 func (u myuint64) addOne() myuint64 {
-	lo, carry := bits.Add64(uint64(u), 1, 0)
-	return myuint64(lo + carry)
+	lo, _ := bits.Add64(uint64(u), 1, 0)
+	return myuint64(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
-- 
2.43.0


From afa9637ceeb60896aaf16d96bb4eaac1bb7b06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:19 +0000
Subject: [PATCH 27/34] fix: tree: deleting a value keeps equal copies of other
 values

---
 pkg/tree/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 9ebe64f..6e401e8 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -167,7 +167,8 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 			deleteCount++
 		} else {
 			// doesn't match - get to keep it
-			r.addVal(tag, nodeIndex, matchFunc, nil)
+			// no matchFunc: a kept value must not be dropped because it equals another kept one
+			r.addVal(tag, nodeIndex, nil, nil)
 			keepCount++
 		}
 	}
-- 
2.43.0


From a872666707ef73ec5859035c0f25393601f5b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 28/34] fix: id16, id32, id64: an invalid prefix is reported by
 the id set builder (it panicked)

---
 pkg/tree/id16/range16.go | 2 +-
 pkg/tree/id32/range32.go | 2 +-
 pkg/tree/id64/range64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 5032855..004802b 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -64,7 +64,7 @@ func (r r16) String() string {
 }
 
 func (r r16) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil && r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index cee6b89..de888b8 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -64,7 +64,7 @@ func (r r32) String() string {
 }
 
 func (r r32) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil && r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index 6408f69..393a197 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -64,7 +64,7 @@ func (r r64) String() string {
 }
 
 func (r r64) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil && r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
-- 
2.43.0


From 08d7a8404ca6903972fc77f440ad9eeff6b3fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:58 +0000
Subject: [PATCH 29/34] fix: table16: listings carry 16 bit ids, as Get and
 ClaimFree do

---
 pkg/table/table16/table16.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index f4814d4..5b49d26 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -7,7 +7,6 @@ import (
 	"github.com/henderiw/idxtable/pkg/table"
 	"github.com/henderiw/idxtable/pkg/tree"
 	"github.com/henderiw/idxtable/pkg/tree/id16"
-	"github.com/henderiw/idxtable/pkg/tree/id32"
 	"k8s.io/apimachinery/pkg/labels"
 )
 
@@ -133,7 +132,7 @@ func (r *table16) GetAll() tree.Entries {
 	entries := make(tree.Entries, 0, r.table.Size())
 	for _, entry := range r.table.GetAll() {
 		// need to remap the id for the outside world
-		entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, entry.ID())), 32), entry.Data().Labels())
+		entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, entry.ID()), id16.IDBitSize), entry.Data().Labels())
 
 		entries = append(entries, entry)
 	}
@@ -149,7 +148,7 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), 32), entry.Labels())
+			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, uint64(entry.ID().ID())), id16.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
-- 
2.43.0


From bea004d1d75c14185ef95352f8130d03989b590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:58 +0000
Subject: [PATCH 30/34] fix: tree16, tree32, tree64: Parents returns only the
 shorter entries covering the id

---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 3c4feaf..29ee392 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -243,7 +243,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 76950c8..8e62ff2 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -241,7 +241,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index b3204a7..c6d097e 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -242,7 +242,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
-- 
2.43.0


From 13f39945e1224c64aea18f3ede6636fea8e1598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:58 +0000
Subject: [PATCH 31/34] fix: tree16, tree32, tree64: printing holds the read
 lock while it walks the tree

---
 pkg/tree/tree16/tree16.go | 6 ++++++
 pkg/tree/tree32/tree32.go | 6 ++++++
 pkg/tree/tree64/tree64.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 29ee392..daf7b57 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -318,9 +318,15 @@ func (r *tree16) validate(id tree.ID) error {
 }
 
 func (r *tree16) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree16) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 8e62ff2..0e95819 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -316,9 +316,15 @@ func (r *tree32) validate(id tree.ID) error {
 }
 
 func (r *tree32) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree32) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index c6d097e..92a57ac 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -317,9 +317,15 @@ func (r *tree64) validate(id tree.ID) error {
 }
 
 func (r *tree64) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(1)
 }
 
 func (r *tree64) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
-- 
2.43.0


From 29e36797442d9b2fa996eff508dbeceff863a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:09 +0000
Subject: [PATCH 32/34] fix: table16, table32, table64: an inverted range holds
 no id (free ids outside the range were reported)

---
 pkg/table/table16/table16.go | 8 +++++---
 pkg/table/table32/table32.go | 8 +++++---
 pkg/table/table64/table64.go | 5 ++++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index 5b49d26..344d144 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -11,10 +11,12 @@ import (
 )
 
 func New(start, end uint16) table.Table {
+	var size uint64
+	if start <= end { // an inverted range holds no id
+		size = uint64(end-start) + 1
+	}
 	return &table16{
-		table: idxtable.NewTable[tree.Entry](
-			uint64(end-start) + 1,
-		),
+		table: idxtable.NewTable[tree.Entry](size),
 		start: start,
 		end:   end,
 	}
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 7a8c12c..139e604 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -11,10 +11,12 @@ import (
 )
 
 func New(start, end uint32) table.Table {
+	var size uint64
+	if start <= end { // an inverted range holds no id
+		size = uint64(end-start) + 1
+	}
 	return &table32{
-		table: idxtable.NewTable[tree.Entry](
-			uint64(end-start) + 1,
-		),
+		table: idxtable.NewTable[tree.Entry](size),
 		start: start,
 		end:   end,
 	}
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 6544a25..c208cb9 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -13,7 +13,10 @@ import (
 
 func New(start, end uint64) table.Table {
 	size := end - start
-	if size != math.MaxUint64 {
+	if start > end {
+		// an inverted range holds no id
+		size = 0
+	} else if size != math.MaxUint64 {
 		// the capacity of the full 64 bit range does not fit in a uint64
 		size++
 	}
-- 
2.43.0


From eb9b3c815eeef0827327c9c34e9bfe00b089198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:09 +0000
Subject: [PATCH 33/34] fix: iptable: an inverted or mixed range holds no
 address (addresses outside the range were reported free)

---
 pkg/iptable/iptable.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/iptable/iptable.go b/pkg/iptable/iptable.go
index bb16500..fe7888a 100644
--- a/pkg/iptable/iptable.go
+++ b/pkg/iptable/iptable.go
@@ -29,11 +29,14 @@ type IPTable interface {
 }
 
 func New(from, to netip.Addr) IPTable {
+	ipRange := netipx.IPRangeFrom(from, to)
+	var size uint64
+	if ipRange.IsValid() { // an inverted or mixed range holds no address
+		size = numIPs(from, to)
+	}
 	return &ipTable{
-		table: idxtable.NewTable[table.Route](
-			numIPs(from, to),
-		),
-		ipRange: netipx.IPRangeFrom(from, to),
+		table:   idxtable.NewTable[table.Route](size),
+		ipRange: ipRange,
 	}
 }
 
-- 
2.43.0


From faf4c89767c3441d1ef1942f6ec5c4aef24d17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:02 +0000
Subject: [PATCH 34/34] fix: tree16, tree32, tree64: a prefix longer than the
 ids is refused (it was stored, and free claims failed from then on)

---
 pkg/tree/tree16/tree16.go | 4 ++--
 pkg/tree/tree32/tree32.go | 4 ++--
 pkg/tree/tree64/tree64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index daf7b57..b52c3a7 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -311,8 +311,8 @@ func (r *tree16) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id16.IDBitSize {
+		return fmt.Errorf("max prefix length is %d, got %d", id16.IDBitSize, id.Length())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 0e95819..479f463 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -309,8 +309,8 @@ func (r *tree32) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id32.IDBitSize {
+		return fmt.Errorf("max prefix length is %d, got %d", id32.IDBitSize, id.Length())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 92a57ac..0306451 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -310,8 +310,8 @@ func (r *tree64) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id64.IDBitSize {
+		return fmt.Errorf("max prefix length is %d, got %d", id64.IDBitSize, id.Length())
 	}
 	return nil
 }
-- 
2.43.0

