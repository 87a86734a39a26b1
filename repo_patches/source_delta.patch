From 7df7e4f93e00d73544f205434c6c3cca87fe3d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:18 +0000
Subject: [PATCH 01/10] fix: reject bit index one past the end in BitSet set()
 and test()

An index in the byte right after the buffer was accepted, so set() and
test() touched memory outside of the bitset.
---
 src/utils/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 3be81f2..4fab787 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -127,7 +127,7 @@ BitSet::set(size_t idx)
     size_t idx_byte = idx / 8;
     unsigned int off = idx % 8;
     uint8_t *cursor = m_bits + idx_byte;
-    if (cursor > m_end)
+    if (cursor >= m_end)
         throw std::out_of_range("index out of range");
     *cursor |= 1 << (7 - off);
 }
@@ -140,7 +140,7 @@ BitSet::test(size_t idx)
     size_t idx_byte = idx / 8;
     unsigned int off = idx % 8;
     uint8_t *cursor = m_bits + idx_byte;
-    if (cursor > m_end)
+    if (cursor >= m_end)
         throw std::out_of_range("index out of range");
     return ((*cursor) & 1 << (7 - off)) != 0;
 }
-- 
2.43.0


From b3ab3c2380104b966e3b39651dd99322bf7c2827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:29 +0000
Subject: [PATCH 02/10] fix: check for enough data before reading series id and
 day of a daily rollup record

The decoder compared the whole buffer size, flag byte included, with 4
before reading a 4-byte id, and read the day byte without any check. A
record cut short was read past the end of the buffer.
---
 src/core/compress.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/compress.cpp b/src/core/compress.cpp
index c199552..24fa668 100644
--- a/src/core/compress.cpp
+++ b/src/core/compress.cpp
@@ -2706,7 +2706,7 @@ RollupCompressor_v1::uncompress3(uint8_t *buff, int size, struct rollup_entry_ex
 
     if (flag & 0x80)            // tid
     {
-        if (size < 4) return 0;
+        if ((size - len) < 4) return 0;
         entry->tid = uncompress_uint32(buff+len);
         len += 4;
         ASSERT(len == 5);
@@ -2729,6 +2729,7 @@ RollupCompressor_v1::uncompress3(uint8_t *buff, int size, struct rollup_entry_ex
     ASSERT(entry->cnt > 0);
 
     // tstamp (0-365)
+    if ((size - len) < 1) return 0;
     entry->tstamp = (Timestamp)buff[len];
     if (flag & 0x20) entry->tstamp += 256;
     entry->tstamp *= 24 * 3600;
-- 
2.43.0


From 1be80a998d81ce2c9d730612631f3eee287e1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:53 +0000
Subject: [PATCH 03/10] fix: convert 10000000000 to seconds like every other
 millisecond timestamp

to_sec() left this one value alone, while is_ms() and to_ms() take it for
milliseconds.
---
 src/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 2aaa8a1..2027aed 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -395,7 +395,7 @@ to_ms(Timestamp tstamp)
 Timestamp
 to_sec(Timestamp tstamp)
 {
-    if (tstamp > MAX_SEC_SINCE_EPOCH)
+    if (tstamp >= MAX_SEC_SINCE_EPOCH)
     //if (g_tstamp_resolution_ms)
         tstamp /= 1000L;
     return tstamp;
-- 
2.43.0


From af30b14bf84597af8570296d902922ef58f3a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:30:06 +0000
Subject: [PATCH 04/10] fix: look up the last entry of the index file

The lookup functions took the last entry that fits the file as being
beyond its end. The index stored for series 4095 of a new file was
never found again.
---
 src/core/mmap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 38beaea..0ba55ec 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -472,7 +472,7 @@ IndexFile::get_indices(TimeSeriesId id, FileIndex& file_index, HeaderIndex& head
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -495,7 +495,7 @@ IndexFile::get_indices2(TimeSeriesId id, FileIndex& file_index, HeaderIndex& hea
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -518,7 +518,7 @@ IndexFile::get_out_of_order(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
@@ -568,7 +568,7 @@ IndexFile::get_out_of_order2(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
-- 
2.43.0


From 02697857327c97c032318e119d83ed156587c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:01:42 +0000
Subject: [PATCH 05/10] fix: a page that refused a data point stays full

After a refused point the encoder remembers the refused timestamp and delta.
A later, smaller point could still fit and was then stored relative to the
refused one, so it was read back with a wrong timestamp and value.
---
 src/core/compress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/compress.cpp b/src/core/compress.cpp
index 24fa668..7551409 100644
--- a/src/core/compress.cpp
+++ b/src/core/compress.cpp
@@ -1005,6 +1005,7 @@ Compressor_v2::compress(Timestamp timestamp, double value)
 {
     ASSERT(get_start_tstamp() <= timestamp);
 
+    if (UNLIKELY(m_is_full)) return false;
     m_bitset.save_check_point();
 
     try
-- 
2.43.0


From 7410f357625c6aa52d1eff49fb9dc753fb8ec994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:34 +0000
Subject: [PATCH 06/10] fix: first downsampling interval of a query that starts
 at 0

Rounding timestamp 0 up to an interval start wrapped around, so the first
interval started off the grid and filled results lost all their points.
---
 src/agg/down.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/agg/down.cpp b/src/agg/down.cpp
index 0a88f4f..09daca7 100644
--- a/src/agg/down.cpp
+++ b/src/agg/down.cpp
@@ -235,6 +235,7 @@ Downsampler::create(const char *downsample, const TimeRange& range, bool ms)
 Timestamp
 Downsampler::step_up(Timestamp tstamp) const
 {
+    if (tstamp == 0) return m_all ? m_start : 0;
     tstamp--;
     return m_all ? m_start : (tstamp - (tstamp % m_interval) + m_interval);
 }
-- 
2.43.0


From 13e8b5e4918c4632b8da4ba14a21ac16da1da03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:34 +0000
Subject: [PATCH 07/10] fix: endless loop filling intervals shorter than a
 second

An interval of less than 1000 ms became 0 when the output is in seconds.
---
 src/agg/down.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/agg/down.cpp b/src/agg/down.cpp
index 09daca7..7796732 100644
--- a/src/agg/down.cpp
+++ b/src/agg/down.cpp
@@ -280,6 +280,7 @@ Downsampler::fill_if_needed(DataPointVector& dps)
         Timestamp ts = validate_resolution(m_time_range.get_from(), m_ms);
         Timestamp interval =
             (m_ms == g_tstamp_resolution_ms) ? m_interval : (m_ms ? (m_interval * 1000) : m_interval / 1000);
+        if (interval == 0) interval = 1;
 
         // scan dps, filling any gaps
         for (auto dp: dps)
-- 
2.43.0


From b79d2004c71cc016a789d0ac57bdd36fd0ab3e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:33:11 +0000
Subject: [PATCH 08/10] fix: late data point discards the count of the pending
 rollup

A point older than the current rollup hour reset the count of the hour being
accumulated but kept its min, max and sum. The hour was then recorded with too
small a count, although only the late point's own day is marked out of order.
---
 src/agg/rollup.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index f195988..eff5cab 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -238,7 +238,6 @@ RollupManager::add_data_point(Tsdb *tsdb, MetricId mid, TimeSeriesId tid, DataPo
     {
         // out-of-order!!!
         tsdb->set_out_of_order2(tid, true);
-        m_cnt = 0;  // invalidate any data currently in buffer
         return;
     }
 
-- 
2.43.0


From c7bdde01e7b3b44ccb981aae368f51c48e23e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:33:11 +0000
Subject: [PATCH 09/10] fix: rollup records of a series silent for a month read
 at the wrong time

Records are placed relative to the last time seen for the series. When a series
had no records in a month file, those of the next file were placed in the
skipped month. Start over at the beginning of the file in that case.
---
 src/core/mmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 0ba55ec..fa615e0 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1597,7 +1597,7 @@ RollupDataFile::query_entry(const TimeRange& range, struct rollup_entry *entry,
         QueryTask *task = search->second;
         Timestamp ts;
 
-        if (task->get_last_tstamp() == TT_INVALID_TIMESTAMP)
+        if ((task->get_last_tstamp() == TT_INVALID_TIMESTAMP) || (task->get_last_tstamp() < m_begin))
         {
             ts = m_begin;
             task->set_last_tstamp(ts = m_begin);    // in seconds
-- 
2.43.0


From f99bb5cfa9a2f9c4adfa0eb44f81f549ffeb1b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:33:11 +0000
Subject: [PATCH 10/10] fix: buffered rollup records hidden by another series

Reading the write buffer of a rollup file stopped at the first record past the
query range. The buffer holds records of several series, so records of the
others behind it were not returned.
---
 src/core/mmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index fa615e0..489e6d6 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1749,7 +1749,7 @@ RollupDataFile::query_level1_compressor_v1_v2(const TimeRange& range, std::unord
             len = RollupCompressor_v1::uncompress2((uint8_t*)(m_buff+i), m_index-i, &entry, m_compressor_precision);
         }
         if (len <= 0) break;
-        if (query_entry(range, &entry, map, rollup) > 0) break;
+        query_entry(range, &entry, map, rollup);
     }
 }
 
-- 
2.43.0

