From c91291bf0c3dcaf0bf7b5c3e0afca2e5daeba5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 01/17] fix: batch boundaries of Range functions near the
 maximum integer

low + batchSize*half can exceed the largest int although the range itself
does not; the wrapped-around midpoint then passed the mid >= high test and
batches outside of the range were processed.
---
 parallel/parallel.go       | 12 ++++++------
 speculative/speculative.go |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 7613b17..0724946 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -337,7 +337,7 @@ func Range(low, high, n int, f func(low, high int)) {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				f(low, high)
 				return
 			}
@@ -393,7 +393,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -449,7 +449,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -510,7 +510,7 @@ func RangeReduce[T any](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right T
@@ -567,7 +567,7 @@ func RangeReduceSum[T Addable](low, high, n int, reduce func(low, high int) T) T
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right T
@@ -627,7 +627,7 @@ func RangeReduceProduct[T Multipliable](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right T
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 69d4e34..fbd0c46 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -251,7 +251,7 @@ func Range(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -310,7 +310,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -369,7 +369,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -437,7 +437,7 @@ func RangeReduce[T any](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right T
-- 
2.43.0


From 1c7ebf33f7a6f2c9aaa93edfd2120a76980b1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 02/17] fix: reject a negative number of batches for empty
 ranges, and compare range bounds directly

Range functions are documented to panic if n < 0, but an empty range was
accepted with any n. high - low can also wrap around for high < low.
---
 internal/internal.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index b93740d..3c4ffc7 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -10,7 +10,7 @@ import (
 // a default is used that takes runtime.NumCPU() into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
 	switch size := high - low; {
-	case size > 0:
+	case low < high:
 		switch {
 		case n == 0:
 			batches = 2 * runtime.NumCPU()
@@ -22,7 +22,10 @@ func ComputeNofBatches(low, high, n int) (batches int) {
 		if batches > size {
 			batches = size
 		}
-	case size == 0:
+	case low == high:
+		if n < 0 {
+			panic(fmt.Sprintf("invalid number of batches: %v", n))
+		}
 		batches = 1
 	default:
 		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
-- 
2.43.0


From c036ceb86e6f1616f36b952963206c00c6ab0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 03/17] fix: Scanner and BytesScanner report the number of
 elements they fetched

---
 pipeline/source.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 5ee9439..518e3b7 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -89,9 +89,10 @@ func (src *Scanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *Scanner) Fetch(n int) (fetched int) {
 	var data []string
-	for fetched = range n {
+	for range n {
 		if src.Scan() {
 			data = append(data, src.Text())
+			fetched++
 		} else {
 			break
 		}
@@ -126,9 +127,10 @@ func (src *BytesScanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *BytesScanner) Fetch(n int) (fetched int) {
 	var data [][]byte
-	for fetched = range n {
+	for range n {
 		if src.Scan() {
 			data = append(data, slices.Clone(src.Bytes()))
+			fetched++
 		} else {
 			break
 		}
-- 
2.43.0


From 5db509ab94bee8d281e9947e98a335d053546a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 04/17] fix: Skip announces the remaining size to the following
 filters

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index bf8b559..a0a548d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -313,7 +313,7 @@ func Skip[T any](n int) Node[[]T] {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data []T) (result []T) {
-- 
2.43.0


From 21d38667145a2713346c6c6f13fc03d3859f39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 05/17] fix: Count starts from zero when the size is unknown

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index a0a548d..26b048b 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -248,6 +248,7 @@ func Count[T any](result *int) Filter[[]T] {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data []T) []T {
 				*result += len(data)
 				return data
-- 
2.43.0


From 6e61ec1096a689bb743e1a9be841530c5bacfaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 06/17] fix: variable batch sizes never exceed the maximum

---
 pipeline/pipeline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c1a56ce..adaaf65 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -249,7 +249,7 @@ func (p *Pipeline[T]) finalizeVariableBatchSize() {
 
 func (p *Pipeline[T]) nextBatchSize(batchSize int) (result int) {
 	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
+	if result > p.maxBatchSize || result < batchSize {
 		result = p.maxBatchSize
 	}
 	return
@@ -326,7 +326,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From f74f63a8c7572bee3143534b27c3b6205f88d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 07/17] fix: nodes forward batches with the index passed to
 Feed, which merging can change after Begin

---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index dd672e4..664d812 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -39,7 +39,7 @@ func (node *lparnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *lparnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -68,7 +68,7 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep b
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -82,7 +82,7 @@ func (node *lparnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *lparnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -91,7 +91,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch[T]{seqNo, data}:
+				case node.channel <- dataBatch[T]{index, seqNo, data}:
 					return
 				}
 			}
@@ -106,7 +106,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 7e5d3e4..1ed3d1e 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch[T any] struct {
+		index int
 		seqNo int
 		data  T
 	}
@@ -45,7 +46,7 @@ func (node *seqnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *seqnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +64,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -85,7 +86,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -98,7 +99,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -117,11 +118,11 @@ func (node *seqnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *seqnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index e7d1f2c..fc99004 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *strictordnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (k
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -76,7 +76,7 @@ func (node *strictordnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *strictordnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -84,7 +84,7 @@ func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch[T]{seqNo, data}:
+			case node.channel <- dataBatch[T]{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From 2b409c19b93c7ca5faaa7c99dbb2fa65a5a00c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 08/17] fix: no lost wake-up when a pipeline with strictly
 ordered nodes is cancelled

---
 pipeline/lparnode.go      | 2 ++
 pipeline/strictordnode.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 664d812..23e42c9 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -52,7 +52,9 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool)
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index fc99004..fe9d1e0 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From 5ee60f4218417f63d66a2b46be380f8412b97685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 09/17] fix: gsync.Map works with nil interface keys and values

---
 gsync/sync.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gsync/sync.go b/gsync/sync.go
index 34c6ad3..8975e4c 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -23,7 +23,7 @@ func (m *Map[K, V]) Delete(key K) {
 func (m *Map[K, V]) Load(key K) (value V, ok bool) {
 	v, ok := (*sync.Map)(m).Load(key)
 	if ok {
-		return v.(V), true
+		value, _ = v.(V)
 	}
 	return
 }
@@ -31,19 +31,22 @@ func (m *Map[K, V]) Load(key K) (value V, ok bool) {
 func (m *Map[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadAndDelete(key)
 	if loaded {
-		return v.(V), true
+		value, _ = v.(V)
 	}
 	return
 }
 
 func (m *Map[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadOrStore(key, value)
-	return v.(V), loaded
+	actual, _ = v.(V)
+	return actual, loaded
 }
 
 func (m *Map[K, V]) Range(f func(K, V) bool) {
 	(*sync.Map)(m).Range(func(k any, v any) bool {
-		return f(k.(K), v.(V))
+		key, _ := k.(K)
+		value, _ := v.(V)
+		return f(key, value)
 	})
 }
 
@@ -54,7 +57,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 func (m *Map[K, V]) Swap(key K, value V) (previous V, loaded bool) {
 	prev, loaded := (*sync.Map)(m).Swap(key, value)
 	if loaded {
-		previous = prev.(V)
+		previous, _ = prev.(V)
 	}
 	return
 }
-- 
2.43.0


From a0f550249b29f0324bd9e53f4f579cfe95f76000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 10/17] fix: gsync.Pool.Get returns nil when the pool is empty
 and has no New function

---
 gsync/sync.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsync/sync.go b/gsync/sync.go
index 8975e4c..8991a07 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -74,6 +74,9 @@ func (p *Pool[T]) getSyncPool() *sync.Pool {
 	}
 	result := &sync.Pool{
 		New: func() any {
+			if p.New == nil {
+				return (*T)(nil)
+			}
 			return p.New()
 		},
 	}
-- 
2.43.0


From 9c09310311665bf62abba427b9d08dad80c72a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 11/17] fix: IsSorted does not leave goroutines behind that
 read the collection while Sort modifies it

---
 psort/sort.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psort/sort.go b/psort/sort.go
index 99d21de..fff8c97 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/intel/forGoParallel/speculative"
+	"github.com/intel/forGoParallel/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -44,13 +43,14 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(j, j-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From 21531cf385315b980b453734df63b4eb213bdc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 12/17] fix: Float64Slice.Less orders NaN values first, as
 SequentialSort does

---
 psort/sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psort/sort.go b/psort/sort.go
index fff8c97..8ec6b12 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -114,7 +114,7 @@ func (s Float64Slice) Len() int {
 }
 
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From e3ea8d0e311dedd7d3c5cf23cf4e4e828a6b0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 13/17] fix: order the nodes before a StrictOrd node before
 their goroutines are started

---
 pipeline/pipeline.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index adaaf65..2af9a98 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -293,6 +293,19 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 	}
 	dataSize := p.source.Prepare(p.ctx)
 	filteredSize := dataSize
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if p.nodes[index].StrictOrd() {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode[T]:
+					node.kind = Ordered
+				case *lparnode[T]:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	for index := 0; index < len(p.nodes); {
 		if p.nodes[index].Begin(p, index, &filteredSize) {
 			index++
@@ -311,19 +324,6 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if p.nodes[index].StrictOrd() {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode[T]:
-						node.kind = Ordered
-					case *lparnode[T]:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From a3ca12f929565cb28e3d64bda19fbe5e600e625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 14/17] fix: the error value of a pipeline is only accessed
 with its mutex held

---
 pipeline/pipeline.go      | 6 ++++--
 pipeline/transformnode.go | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 2af9a98..7648023 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -283,7 +283,7 @@ func (p *Pipeline[T]) RunWithContext(ctx context.Context, cancel context.CancelF
 }
 
 func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -313,7 +313,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 			p.nodes = slices.Delete(p.nodes, index, index+1)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -354,9 +354,11 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 	for _, node := range p.nodes {
 		node.End()
 	}
+	p.mutex.Lock()
 	if p.err == nil {
 		p.err = p.source.Err()
 	}
+	p.mutex.Unlock()
 }
 
 // Run initiates pipeline execution by calling
diff --git a/pipeline/transformnode.go b/pipeline/transformnode.go
index f2da4eb..17c58ab 100644
--- a/pipeline/transformnode.go
+++ b/pipeline/transformnode.go
@@ -105,7 +105,7 @@ func (node *transformNode[S, T]) Begin(_ *Pipeline[S], _ int, dataSize *int) (ke
 			node.next.nodes = slices.Delete(node.next.nodes, index, index+1)
 		}
 	}
-	if node.next.err != nil {
+	if node.next.Err() != nil {
 		return
 	}
 	if len(node.next.nodes) == 0 {
-- 
2.43.0


From ad06736ea6872cbb82f62514cc1e3e424ce3bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:24 +0000
Subject: [PATCH 15/17] fix: merging nodes does not write into the filter slice
 of the caller

---
 pipeline/lparnode.go      | 3 ++-
 pipeline/parnode.go       | 3 ++-
 pipeline/seqnode.go       | 5 +++--
 pipeline/strictordnode.go | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 23e42c9..6534884 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -2,6 +2,7 @@ package pipeline
 
 import (
 	"runtime"
+	"slices"
 	"sync"
 )
 
@@ -19,7 +20,7 @@ type lparnode[T any] struct {
 
 // LimitedPar creates a parallel node with the given filters.
 func LimitedPar[T any](filters ...Filter[T]) Node[T] {
-	return &lparnode[T]{limit: runtime.NumCPU(), filters: filters}
+	return &lparnode[T]{limit: runtime.NumCPU(), filters: slices.Clip(filters)}
 }
 
 func (node *lparnode[T]) makeOrdered() {
diff --git a/pipeline/parnode.go b/pipeline/parnode.go
index 7bc53f5..e292a2d 100644
--- a/pipeline/parnode.go
+++ b/pipeline/parnode.go
@@ -1,6 +1,7 @@
 package pipeline
 
 import (
+	"slices"
 	"sync"
 )
 
@@ -13,7 +14,7 @@ type parnode[T any] struct {
 
 // Par creates a parallel node with the given filters.
 func Par[T any](filters ...Filter[T]) Node[T] {
-	return &parnode[T]{filters: filters}
+	return &parnode[T]{filters: slices.Clip(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 1ed3d1e..87c4b2b 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -1,6 +1,7 @@
 package pipeline
 
 import (
+	"slices"
 	"sync"
 )
 
@@ -23,12 +24,12 @@ type (
 
 // Ord creates an ordered node with the given filters.
 func Ord[T any](filters ...Filter[T]) Node[T] {
-	return &seqnode[T]{kind: Ordered, filters: filters}
+	return &seqnode[T]{kind: Ordered, filters: slices.Clip(filters)}
 }
 
 // Seq creates a sequential node with the given filters.
 func Seq[T any](filters ...Filter[T]) Node[T] {
-	return &seqnode[T]{kind: Sequential, filters: filters}
+	return &seqnode[T]{kind: Sequential, filters: slices.Clip(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index fe9d1e0..a1c4635 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -1,6 +1,7 @@
 package pipeline
 
 import (
+	"slices"
 	"sync"
 )
 
@@ -16,7 +17,7 @@ type strictordnode[T any] struct {
 
 // StrictOrd creates an ordered node with the given filters.
 func StrictOrd[T any](filters ...Filter[T]) Node[T] {
-	return &strictordnode[T]{filters: filters}
+	return &strictordnode[T]{filters: slices.Clip(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
-- 
2.43.0


From 3db2a4b792e7459f63b6a28c6f8172604a7ab327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 16/17] fix: appending to a batch of a Slice source does not
 overwrite the elements after it

---
 pipeline/source.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 518e3b7..a49e583 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -52,12 +52,12 @@ func (src *Slice[T]) Fetch(n int) (fetched int) {
 		src.data = nil
 	case n >= src.size:
 		fetched = src.size
-		src.data = src.value
+		src.data = src.value[:src.size:src.size]
 		src.value = nil
 		src.size = 0
 	default:
 		fetched = n
-		src.data = src.value[:n]
+		src.data = src.value[:n:n]
 		src.value = src.value[n:]
 		src.size -= n
 	}
-- 
2.43.0


From 1e9ce6f6e63eda86f15d9a0197d95c85d974e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 17/17] fix: IsSorted keeps the early termination of
 speculative.And, and waits for both halves

---
 psort/sort.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/psort/sort.go b/psort/sort.go
index 8ec6b12..05852cf 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -3,9 +3,10 @@ package psort
 
 import (
 	"sort"
+	"sync"
 	"sync/atomic"
 
-	"github.com/intel/forGoParallel/parallel"
+	"github.com/intel/forGoParallel/speculative"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -50,9 +51,12 @@ func IsSorted(data sort.Interface) bool {
 			return true
 		}
 		half := size / 2
-		result := parallel.And(
-			func() bool { return pTest(index, half) },
-			func() bool { return pTest(index+half, size-half) },
+		var wg sync.WaitGroup
+		wg.Add(2)
+		defer wg.Wait()
+		result := speculative.And(
+			func() bool { defer wg.Done(); return pTest(index, half) },
+			func() bool { defer wg.Done(); return pTest(index+half, size-half) },
 		)
 		return result
 	}
-- 
2.43.0

