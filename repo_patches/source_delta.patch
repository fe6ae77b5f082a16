From e4d7855de421d8aa4acc49582c48c7c6eae9a497 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 1/9] fix: packet decoder: check that the skz84 bogus byte fits
 into the trace buffer

With the SKZ84 erratum, a corrupt TMA packet at the very end of the trace
buffer was reported as an invalid packet of size ptps_tma + 1, moving the
decoder one byte past the end of the buffer.
---
 libipt/src/pt_packet_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index bdabb03..f71d107 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -520,6 +520,10 @@ static int pt_pkt_decode_tma(struct pt_packet_decoder *decoder,
 		    && (size == -pte_bad_packet)) {
 			size = ptps_tma + 1;
 
+			/* The bogus data byte must be in the trace buffer. */
+			if (decoder->config.end < decoder->pos + size)
+				return -pte_eos;
+
 			packet->type = ppt_invalid;
 			packet->size = (uint8_t) size;
 		}
-- 
2.43.0


From 771820fd2df4129013b7e70ff671c9f054af0194 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 2/9] fix: sync: make progress when searching backward through
 back-to-back PSB

pt_find_psb() navigates to the last PSB of a sequence of back-to-back PSB.
When searching backward from that last PSB, the same PSB was found again.
Decoders that search for the preceding synchronization point in a loop did
not terminate.
---
 libipt/src/pt_sync.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_sync.c b/libipt/src/pt_sync.c
index 59a8892..48f0d92 100644
--- a/libipt/src/pt_sync.c
+++ b/libipt/src/pt_sync.c
@@ -210,11 +210,12 @@ int pt_sync_forward(const uint8_t **sync, const uint8_t *pos,
 int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		    const struct pt_config *config)
 {
-	const uint8_t *begin, *end;
+	const uint8_t *begin, *end, *start;
 
 	if (!sync || !pos || !config)
 		return -pte_internal;
 
+	start = pos;
 	begin = config->begin;
 	end = config->end;
 
@@ -243,6 +244,12 @@ int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		if (!next)
 			continue;
 
+		/* With back-to-back PSB, we find the last one, which may be the
+		 * one we started from.  Ignore it so we make progress.
+		 */
+		if (start <= next)
+			continue;
+
 		*sync = next;
 		return 0;
 	}
-- 
2.43.0


From 5a3a13e163346e7d13a7d0a5af15ec2e081701c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 3/9] fix: packet decoder: return -pte_eos from sync_forward at
 the end of the trace

Searching forward from a decoder that had been synchronized onto the very end
of the trace buffer resulted in -pte_internal.
---
 libipt/src/pt_packet_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index f71d107..3e1866b 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -116,6 +116,10 @@ int pt_pkt_sync_forward(struct pt_packet_decoder *decoder)
 
 	pos -= space;
 
+	/* There is nothing left if we were already at the very end. */
+	if (decoder->config.end < pos)
+		return -pte_eos;
+
 	errcode = pt_sync_forward(&sync, pos, &decoder->config);
 	if (errcode < 0)
 		return errcode;
-- 
2.43.0


From 7a392cd45b9bbce91fb1349eb78599679f9f6738 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 4/9] fix: image: keep offset and size of split sections when
 copying an image

pt_image_copy() re-added every section in full at the address of its
remaining part.  Copying an image with overlapping sections thus mapped
wrong bytes, and mapped memory the source image does not contain.
---
 libipt/src/pt_image.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index bcc1e58..f2bc721 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -133,21 +133,23 @@ const char *pt_image_name(const struct pt_image *image)
 	return image->name;
 }
 
-int pt_image_add(struct pt_image *image, struct pt_section *section,
-		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+/* Add @size bytes of @section starting at @offset to @image. */
+static int pt_image_add_part(struct pt_image *image,
+			     struct pt_section *section,
+			     const struct pt_asid *asid, uint64_t vaddr,
+			     uint64_t offset, uint64_t size, int isid)
 {
 	struct pt_section_list **list, *next, *removed, *new;
-	uint64_t size, begin, end;
+	uint64_t begin, end;
 	int errcode;
 
 	if (!image || !section)
 		return -pte_internal;
 
-	size = pt_section_size(section);
 	begin = vaddr;
 	end = begin + size;
 
-	next = pt_mk_section_list(section, asid, begin, 0ull, size, isid);
+	next = pt_mk_section_list(section, asid, begin, offset, size, isid);
 	if (!next)
 		return -pte_nomem;
 
@@ -245,6 +247,13 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	return 0;
 }
 
+int pt_image_add(struct pt_image *image, struct pt_section *section,
+		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+{
+	return pt_image_add_part(image, section, asid, vaddr, 0ull,
+				 pt_section_size(section), isid);
+}
+
 int pt_image_remove(struct pt_image *image, struct pt_section *section,
 		    const struct pt_asid *asid, uint64_t vaddr)
 {
@@ -339,10 +348,12 @@ int pt_image_copy(struct pt_image *image, const struct pt_image *src)
 	for (list = src->sections; list; list = list->next) {
 		int errcode;
 
-		errcode = pt_image_add(image, list->section.section,
-				       &list->section.asid,
-				       list->section.vaddr,
-				       list->isid);
+		errcode = pt_image_add_part(image, list->section.section,
+					    &list->section.asid,
+					    list->section.vaddr,
+					    list->section.offset,
+					    list->section.size,
+					    list->isid);
 		if (errcode < 0)
 			ignored += 1;
 	}
-- 
2.43.0


From 2813ce7a2eb5b2a497370da3c645eefdc1189104 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 5/9] fix: iscache: report big image section identifiers as not
 in the cache

Identifiers above UINT16_MAX are not in the cache, so the documented error
is -pte_bad_image, not -pte_internal.
---
 libipt/src/pt_image_section_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index 4310313..afb97ee 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -767,7 +767,7 @@ int pt_iscache_lookup(struct pt_image_section_cache *iscache,
 
 	isid -= 1;
 	if (isid > UINT16_MAX)
-		return -pte_internal;
+		return -pte_bad_image;
 
 	index = (uint16_t) isid;
 
-- 
2.43.0


From bfdc83ebf73bd676bcd34a66b6598732d218b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 6/9] fix: iscache: account for the memory of a section removed
 from the lru list

Otherwise the cache believes to be over its limit later on, finds nothing to
prune, and fails mapping a section with an internal error.
---
 libipt/src/pt_image_section_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index afb97ee..f52c288 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -346,6 +346,7 @@ static int pt_iscache_lru_remove(struct pt_image_section_cache *iscache,
 		/* We found it in the cache.  Remove it. */
 		*pnext = lru->next;
 		lru->next = NULL;
+		iscache->used -= lru->size;
 		break;
 	}
 
-- 
2.43.0


From 8aee39a4fa73bb5015eba9f3f64c681590589a0b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 7/9] fix: pt_event_decoder: handle MODE.EXEC without mode
 change at TIP.PGD

A MODE.EXEC packet that does not change the execution mode, or that changes
only the interrupt flag, may precede TIP.PGD just like it may precede TIP or
TIP.PGE.  Don't reject it with -pte_bad_context.
---
 libipt/src/pt_event_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ba4b338..d7f3343 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -3140,6 +3140,7 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 
 		fallthrough;
 	case ptev_exec_mode:
+	case ptev_iflags:
 		/* The MODE.EXEC might come with a standalone TIP.PGD or with a
 		 * FUP + TIP.PGD pair.  In both cases, we won't really reach
 		 * the IP in the TIP.PGD's payload since tracing is disabled as
@@ -3164,6 +3165,11 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 		ev->ip_suppressed = 1;
 		break;
 
+	case ptev_ignore:
+		decoder->event = NULL;
+
+		return pt_evt_decode_tip_pgd(decoder, packet);
+
 	default:
 		errcode = -pte_bad_context;
 		break;
-- 
2.43.0


From 92580fdb44f383c8e0de73d2eb9903c7cd7a84fe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 8/9] fix: pt_event_decoder: find the async branch with
 unrelated events pending

Dequeueing the async branch event moves preceding events that bind to other
packets, e.g. a pending MWAIT, into its place in the queue.  Comparing pointers
then swapped the async branch with that event and failed with -pte_internal.
---
 libipt/src/pt_event_decoder.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index d7f3343..7cfe791 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2892,8 +2892,12 @@ static int pt_evt_decode_tip_event(struct pt_event_decoder *decoder)
 		if (!ev)
 			return -pte_internal;
 
-		/* Swap the asynchronous branch event with the first event. */
-		if (ev != async) {
+		/* Swap the asynchronous branch event with the first event.
+		 *
+		 * We must not compare @ev to @async: dequeueing may have moved
+		 * events that bind to other packets into @async's place.
+		 */
+		if (ev->type != ptev_async_branch) {
 			struct pt_event tmp;
 
 			tmp = *async;
-- 
2.43.0


From 4feb57fda18b601138075fc463dcf3f61d975200 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 9/9] fix: query decoder: return the status from sync_backward

pt_qry_sync_forward() and pt_qry_sync_set() return pts_ip_suppressed and
pts_event_pending for the synchronization point.  pt_qry_sync_backward()
always returned zero, so its users started at ip zero with tracing enabled if
tracing was disabled at the PSB and missed pending events.
---
 libipt/src/pt_query_decoder.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 11b2b66..8e7b473 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -297,7 +297,7 @@ int pt_qry_sync_forward(struct pt_query_decoder *decoder, uint64_t *ip)
 int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
@@ -331,13 +331,13 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 
 		sync = pos;
 
-		errcode = pt_qry_start(decoder, ip);
-		if (errcode < 0) {
+		status = pt_qry_start(decoder, ip);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
@@ -350,7 +350,7 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 			break;
 	}
 
-	return 0;
+	return status;
 }
 
 int pt_qry_sync_set(struct pt_query_decoder *decoder, uint64_t *ip,
-- 
2.43.0

