From 74dce15c4bcb9ca75e145657567974767efd03be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 01/40] fix: indicate -pte_eos at the end of trace in the block
 decoder

When the trace runs out, pt_blk_next() allows the user to proceed until trace
is needed.  It then reported -pte_bad_query, which means that the decoder got
out of sync, instead of the documented -pte_eos.
---
 libipt/src/pt_block_decoder.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index a02378b..9ddfee2 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -387,6 +387,10 @@ static int pt_blk_proceed_indirect(struct pt_block_decoder *decoder)
 	}
 
 	default:
+		/* If we ran out of trace, there is no event to query. */
+		if (decoder->status < 0)
+			return decoder->status;
+
 		return -pte_bad_query;
 	}
 }
@@ -406,8 +410,13 @@ static int pt_blk_cond_branch(struct pt_block_decoder *decoder)
 		return -pte_internal;
 
 	ev = &decoder->event;
-	if (ev->type != ptev_tnt)
+	if (ev->type != ptev_tnt) {
+		/* If we ran out of trace, there is no event to query. */
+		if (decoder->status < 0)
+			return decoder->status;
+
 		return -pte_bad_query;
+	}
 
 	size = ev->variant.tnt.size;
 	if (!size)
-- 
2.43.0


From 5d58cce03f6a30ef22fbb0807b2a93d4f22962a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 02/40] fix: proceed to the FUP IP of a TRIG event in the block
 decoder

A TRIG that provides its IP in a FUP may bind to an instruction further ahead.
The block decoder failed with -pte_bad_packet unless that instruction directly
followed the preceding block; the instruction flow decoder proceeds to it.
---
 libipt/src/pt_block_decoder.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 9ddfee2..6934d4f 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1577,7 +1577,7 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 	/* With tracing disabled, the TRIG IP must already be precise. */
 	if (!decoder->enabled) {
 		/* The event decoder must have guaranteed that. */
-		if (!ev->variant.trig.icnt)
+		if (ev->variant.trig.icnt)
 			return -pte_internal;
 
 		return 1;
@@ -3822,9 +3822,13 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 		if (ev->variant.trig.icnt)
 			break;
 
-		/* If this is the TRIG location, it better be right here. */
+		/* The precise IP may have been provided by a subsequent FUP.
+		 *
+		 * If we're not there, yet, we will proceed to it in the next
+		 * iteration.
+		 */
 		if (ev->variant.trig.ip != decoder->ip)
-			return -pte_bad_packet;
+			break;
 
 		return pt_blk_status(decoder, pts_event_pending);
 	}
-- 
2.43.0


From e59fdd6bcacc7a779b6756395ce44d9d23c5a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 03/40] fix: accept a changed execution mode in the first PSB+
 after an overflow

An overflow may hide changes of the execution mode.  The event decoder drops
its knowledge of the mode.  The instruction and block decoders kept the old mode
and failed with -pte_bad_status_update when PSB+ gave a different one.
---
 libipt/internal/include/pt_block_decoder.h | 3 +++
 libipt/internal/include/pt_insn_decoder.h  | 3 +++
 libipt/src/pt_block_decoder.c              | 5 ++++-
 libipt/src/pt_insn_decoder.c               | 5 ++++-
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/libipt/internal/include/pt_block_decoder.h b/libipt/internal/include/pt_block_decoder.h
index 87205c2..c1957e5 100644
--- a/libipt/internal/include/pt_block_decoder.h
+++ b/libipt/internal/include/pt_block_decoder.h
@@ -129,6 +129,9 @@ struct pt_block_decoder {
 	/* - instructions are executed speculatively. */
 	uint32_t speculative:1;
 
+	/* - @mode may be out of date, e.g. due to an overflow. */
+	uint32_t stale_mode:1;
+
 	/* - whether @tsc tracks wall-clock time. */
 	uint32_t has_tsc:1;
 
diff --git a/libipt/internal/include/pt_insn_decoder.h b/libipt/internal/include/pt_insn_decoder.h
index b7a234b..e6ecc8c 100644
--- a/libipt/internal/include/pt_insn_decoder.h
+++ b/libipt/internal/include/pt_insn_decoder.h
@@ -110,6 +110,9 @@ struct pt_insn_decoder {
 	/* - instructions are executed speculatively. */
 	uint32_t speculative:1;
 
+	/* - @mode may be out of date, e.g. due to an overflow. */
+	uint32_t stale_mode:1;
+
 	/* - whether @icnt is valid. */
 	uint32_t has_icnt:1;
 
diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 6934d4f..9a7d32e 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -194,6 +194,7 @@ static int pt_blk_reset(struct pt_block_decoder *decoder)
 	decoder->status = -pte_nosync;
 	decoder->enabled = 0;
 	decoder->speculative = 0;
+	decoder->stale_mode = 0;
 	decoder->has_tsc = 0;
 	decoder->has_icnt = 0;
 	decoder->process_insn = 0;
@@ -4067,6 +4068,7 @@ static int pt_blk_process_overflow(struct pt_block_decoder *decoder,
 	 * instruction.
 	 */
 	decoder->speculative = 0;
+	decoder->stale_mode = 1;
 
 	return 0;
 }
@@ -4085,11 +4087,12 @@ static int pt_blk_process_exec_mode(struct pt_block_decoder *decoder,
 
 	/* Use status update events to diagnose inconsistencies. */
 	mode = ev->variant.exec_mode.mode;
-	if (ev->status_update && decoder->enabled &&
+	if (ev->status_update && decoder->enabled && !decoder->stale_mode &&
 	    decoder->mode != ptem_unknown && decoder->mode != mode)
 		return -pte_bad_status_update;
 
 	decoder->mode = mode;
+	decoder->stale_mode = 0;
 
 	return 0;
 }
diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 762a2a2..a40b2c9 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -55,6 +55,7 @@ static void pt_insn_reset(struct pt_insn_decoder *decoder)
 	decoder->enabled = 0;
 	decoder->process_event = 0;
 	decoder->speculative = 0;
+	decoder->stale_mode = 0;
 	decoder->has_icnt = 0;
 	decoder->process_insn = 0;
 	decoder->bound_paging = 0;
@@ -1897,6 +1898,7 @@ static int pt_insn_process_overflow(struct pt_insn_decoder *decoder)
 	 * instruction.
 	 */
 	decoder->speculative = 0;
+	decoder->stale_mode = 1;
 
 	return 0;
 }
@@ -1913,11 +1915,12 @@ static int pt_insn_process_exec_mode(struct pt_insn_decoder *decoder)
 	mode = ev->variant.exec_mode.mode;
 
 	/* Use status update events to diagnose inconsistencies. */
-	if (ev->status_update && decoder->enabled &&
+	if (ev->status_update && decoder->enabled && !decoder->stale_mode &&
 	    decoder->mode != ptem_unknown && decoder->mode != mode)
 		return -pte_bad_status_update;
 
 	decoder->mode = mode;
+	decoder->stale_mode = 0;
 
 	/* This event provides a TRIG anchor IP. */
 	decoder->has_icnt = 1;
-- 
2.43.0


From dd36059a12dfc53cff6fd9c5609b27b79324cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 04/40] fix: end blocks on calls and jumps that lead to an
 event instruction

---
 libipt/src/pt_block_decoder.c | 55 +++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 9a7d32e..7c692f4 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1022,6 +1022,24 @@ static int pt_blk_proceed_to_insn(struct pt_block_decoder *decoder,
 	}
 }
 
+/* Check whether the user asked us to end the block after @insn.
+ *
+ * Returns a non-zero value if the block ends with @insn, zero otherwise.
+ */
+static int pt_blk_is_block_end(const struct pt_block_decoder *decoder,
+			       const struct pt_insn *insn)
+{
+	if (decoder->flags.variant.block.end_on_call &&
+	    (insn->iclass == ptic_call))
+		return 1;
+
+	if (decoder->flags.variant.block.end_on_jump &&
+	    (insn->iclass == ptic_jump))
+		return 1;
+
+	return 0;
+}
+
 /* Proceed to a particular IP without using trace.
  *
  * Proceed until we reach @ip or until:
@@ -1320,11 +1338,18 @@ static int pt_blk_proceed_to_ptwrite(struct pt_block_decoder *decoder,
 		return pt_blk_proceed_to_insn(decoder, block, insn, iext,
 					      pt_insn_is_ptwrite);
 
+	/* We may already be there. */
+	insn->iclass = ptic_unknown;
+
 	status = pt_blk_proceed_to_ip(decoder, block, insn, iext,
 				      ev->variant.ptwrite.ip);
 	if (status <= 0)
 		return status;
 
+	/* The branch that brought us here may have ended the block. */
+	if (pt_blk_is_block_end(decoder, insn))
+		return 0;
+
 	/* We reached the PTWRITE instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1378,11 +1403,18 @@ static int pt_blk_proceed_to_iret(struct pt_block_decoder *decoder,
 		return pt_blk_proceed_to_insn(decoder, block, insn, iext,
 					      pt_insn_is_iret);
 
+	/* We may already be there. */
+	insn->iclass = ptic_unknown;
+
 	status = pt_blk_proceed_to_ip(decoder, block, insn, iext,
 				      ev->variant.iret.ip);
 	if (status <= 0)
 		return status;
 
+	/* The branch that brought us here may have ended the block. */
+	if (pt_blk_is_block_end(decoder, insn))
+		return 0;
+
 	/* We reached the IRET instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1436,11 +1468,18 @@ static int pt_blk_proceed_to_vmentry(struct pt_block_decoder *decoder,
 		return pt_blk_proceed_to_insn(decoder, block, insn, iext,
 					      pt_insn_is_vmentry);
 
+	/* We may already be there. */
+	insn->iclass = ptic_unknown;
+
 	status = pt_blk_proceed_to_ip(decoder, block, insn, iext,
 				      ev->variant.vmentry.ip);
 	if (status <= 0)
 		return status;
 
+	/* The branch that brought us here may have ended the block. */
+	if (pt_blk_is_block_end(decoder, insn))
+		return 0;
+
 	/* We reached the vmentry instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1494,11 +1533,18 @@ static int pt_blk_proceed_to_uiret(struct pt_block_decoder *decoder,
 		return pt_blk_proceed_to_insn(decoder, block, insn, iext,
 					      pt_insn_is_uiret);
 
+	/* We may already be there. */
+	insn->iclass = ptic_unknown;
+
 	status = pt_blk_proceed_to_ip(decoder, block, insn, iext,
 				      ev->variant.uiret.ip);
 	if (status <= 0)
 		return status;
 
+	/* The branch that brought us here may have ended the block. */
+	if (pt_blk_is_block_end(decoder, insn))
+		return 0;
+
 	/* We reached the UIRET instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1591,11 +1637,16 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 	 * We adjust the event IP when counting instructions, so when we get
 	 * here again, we will skip this part.
 	 */
+	insn->iclass = ptic_unknown;
 	status = pt_blk_proceed_to_ip(decoder, block, insn, iext,
 				      ev->variant.trig.ip);
 	if (status <= 0)
 		return status;
 
+	/* The branch that brought us to the anchor may have ended the block. */
+	if (ev->variant.trig.icnt && pt_blk_is_block_end(decoder, insn))
+		return 0;
+
 	/* Proceed the requested number of instructions from the anchor IP.
 	 *
 	 * We store our progress in the event in case we need to return on the
@@ -1612,6 +1663,10 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 
 		ev->variant.trig.ip = decoder->ip;
 		ev->variant.trig.icnt -= 1;
+
+		/* End the block if the user asked us to, unless we're done. */
+		if (ev->variant.trig.icnt && pt_blk_is_block_end(decoder, insn))
+			return 0;
 	}
 
 	return 1;
-- 
2.43.0


From db552fbcdac353dda6a6e70d4ce69d6f057fcbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 05/40] fix: do not use a synchronous VMCS event as TRIG anchor
 in the instruction decoder

---
 libipt/src/pt_insn_decoder.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index a40b2c9..8cdb979 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -1980,7 +1980,11 @@ static int pt_insn_process_vmcs(struct pt_insn_decoder *decoder)
 		decoder->asid.vmcs = vmcs;
 	}
 
-	if (!decoder->event.ip_suppressed) {
+	/* Synchronous VMCS events bind to an instruction.  They do not have an
+	 * IP of their own.
+	 */
+	if ((decoder->event.type == ptev_async_vmcs) &&
+	    !decoder->event.ip_suppressed) {
 		/* This event provides a TRIG anchor IP. */
 		decoder->has_icnt = 1;
 		decoder->icnt = 0u;
-- 
2.43.0


From aa1843647ee1546bd2d3991d9f9896c8dd6e88b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 06/40] fix: do not cache blocks across direct jumps

The block cache is shared between all decoders that use a section.  If it was
filled by a decoder without end_on_jump, a decoder with end_on_jump continued
blocks across direct forward jumps.
---
 libipt/src/pt_block_decoder.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 7c692f4..2de3c2c 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2427,6 +2427,12 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 	 *     postpone it to the next iteration.  Make sure to end the block if
 	 *     @decoder->flags.variant.block.end_on_call is set, though.
 	 *
+	 *   - at near direct jumps to end the block if
+	 *     @decoder->flags.variant.block.end_on_jump is set
+	 *
+	 *     The cache is shared with other decoders that may not have this
+	 *     flag set so we must stop irrespective of our own flags.
+	 *
 	 *   - at near direct backwards jumps to detect section splits
 	 *
 	 *     In case the current section is split underneath us, we must take
@@ -2477,11 +2483,8 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 		    (iext.iclass == PTI_INST_JMPABS))
 			return -pte_internal;
 
-		if (iext.variant.branch.displacement < 0 ||
-		    decoder->flags.variant.block.end_on_jump)
-			return pt_blk_add_decode(bcache, ioff, insn.mode);
+		return pt_blk_add_decode(bcache, ioff, insn.mode);
 
-		fallthrough;
 	default:
 		if (!pt_blk_is_in_section(msec, nip) || block->truncated)
 			return pt_blk_add_decode(bcache, ioff, insn.mode);
-- 
2.43.0


From 417e75f9b36fadec40153d8f3a5cdf11d642e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 07/40] fix: check the execution mode of cached blocks

The block cache is shared between all decoders that use a section.  A decoder
that executed the same code in a different mode got the instructions and the
mode of the decoder that filled the cache or failed with -pte_internal.
---
 libipt/src/pt_block_decoder.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 2de3c2c..c0cd5b0 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2539,9 +2539,12 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 	/* We must not have switched execution modes.
 	 *
 	 * This would require an event and we're on the no-event flow.
+	 *
+	 * The cache entry may have been added by another decoder that executed
+	 * the same code in a different mode, though.  We can't extend it.
 	 */
 	if (pt_bce_exec_mode(bce) != insn.mode)
-		return -pte_internal;
+		return 0;
 
 	/* The decision point IP and the displacement from @insn.ip. */
 	dip = nip + (uint64_t) (int64_t) bce.displacement;
@@ -2688,6 +2691,15 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 							  bcache, msec,
 							  bcache_fill_steps);
 
+	/* The section is shared with other decoders and the same code may have
+	 * been executed in different modes.
+	 *
+	 * The cache entry is only valid for the mode it was created for.  Take
+	 * the slow path for other modes.
+	 */
+	if (pt_bce_exec_mode(bce) != decoder->mode)
+		return pt_blk_proceed_no_event_uncached(decoder, block);
+
 	/* If we switched sections, the original section must have been split
 	 * underneath us.  A split preserves the block cache of the original
 	 * section.
-- 
2.43.0


From 6109e6d7d044e5e55e5e0fa4b2e857ef1b227fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 08/40] fix: guarantee progress in pt_sync_backward()

If the trace contains adjacent PSBs, pt_sync_backward() searching backwards
from the last of them found that same PSB again.  The event decoder's
pt_evt_sync_backward() did not terminate in this case.
---
 libipt/src/pt_sync.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_sync.c b/libipt/src/pt_sync.c
index 59a8892..fa83f4a 100644
--- a/libipt/src/pt_sync.c
+++ b/libipt/src/pt_sync.c
@@ -210,11 +210,12 @@ int pt_sync_forward(const uint8_t **sync, const uint8_t *pos,
 int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		    const struct pt_config *config)
 {
-	const uint8_t *begin, *end;
+	const uint8_t *begin, *end, *start;
 
 	if (!sync || !pos || !config)
 		return -pte_internal;
 
+	start = pos;
 	begin = config->begin;
 	end = config->end;
 
@@ -243,6 +244,12 @@ int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		if (!next)
 			continue;
 
+		/* In case of adjacent PSBs, we may find the one at or after
+		 * @start again.  Ignore it to guarantee progress.
+		 */
+		if (start <= next)
+			continue;
+
 		*sync = next;
 		return 0;
 	}
-- 
2.43.0


From b53a251cfb36770b5cee02571907876f416b02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 09/40] fix: return the status in pt_qry_sync_backward() and
 pt_blk_sync_backward()

Both functions, and with them pt_insn_sync_backward(), always returned zero on
success.  Pending events and disabled tracing were not indicated.  The
instruction flow decoder assumed that tracing was enabled.
---
 libipt/src/pt_block_decoder.c | 4 +---
 libipt/src/pt_query_decoder.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index c0cd5b0..572ac3b 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -568,10 +568,8 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 		 */
 		pos = pt_blk_pos(decoder);
 		if (pos < start)
-			break;
+			return errcode;
 	}
-
-	return 0;
 }
 
 int pt_blk_sync_set(struct pt_block_decoder *decoder, uint64_t offset)
diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 11b2b66..78bb6fe 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -347,10 +347,8 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 		 */
 		pos = pt_qry_pos(decoder);
 		if (pos < start)
-			break;
+			return errcode;
 	}
-
-	return 0;
 }
 
 int pt_qry_sync_set(struct pt_query_decoder *decoder, uint64_t *ip,
-- 
2.43.0


From 26d1d2bd9407ad349445d8991f84d36cce56a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 10/40] fix: find a PSB+ at the very end of the trace in
 sync_backward()

When searching backwards from the end of the trace, a complete PSB+ at the
end of the trace was skipped.
---
 libipt/src/pt_block_decoder.c | 14 +++++++++-----
 libipt/src/pt_event_decoder.c | 11 +++++++++--
 libipt/src/pt_query_decoder.c | 14 +++++++++-----
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 572ac3b..4aaab13 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -518,13 +518,14 @@ int pt_blk_sync_forward(struct pt_block_decoder *decoder)
 int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, first;
 
 	if (!decoder)
 		return -pte_invalid;
 
 	start = pt_blk_pos(decoder);
-	if (!start) {
+	first = !start;
+	if (first) {
 		const struct pt_config *config;
 
 		config = pt_blk_config(decoder);
@@ -536,7 +537,7 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 			return -pte_bad_config;
 	}
 
-	sync = start;
+	sync = first ? NULL : start;
 	for (;;) {
 		errcode = pt_blk_reset(decoder);
 		if (errcode < 0)
@@ -548,7 +549,7 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 				return errcode;
 
 			pos = pt_blk_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && (sync <= pos));
 
 		sync = pos;
 
@@ -565,9 +566,12 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 
 		/* When starting inside or right after PSB+, we may end up at
 		 * the same PSB again.  Skip it.
+		 *
+		 * When starting at the end of the trace, there needn't be
+		 * anything following the PSB+ we just read.
 		 */
 		pos = pt_blk_pos(decoder);
-		if (pos < start)
+		if (first || (pos < start))
 			return errcode;
 	}
 }
diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ba4b338..118487e 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1484,13 +1484,14 @@ int pt_evt_sync_forward(struct pt_event_decoder *decoder)
 int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, first;
 
 	if (!decoder)
 		return -pte_invalid;
 
 	start = pt_evt_pos(decoder);
-	if (!start) {
+	first = !start;
+	if (first) {
 		start = pt_evt_end(decoder);
 		if (!start)
 			return -pte_bad_config;
@@ -1517,6 +1518,12 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 		pos = pt_evt_pos(decoder);
 		if (pos < start)
 			return errcode;
+
+		/* When starting at the end of the trace, there needn't be
+		 * anything following the PSB+ we just read.
+		 */
+		if (first && errcode >= 0)
+			return errcode;
 	}
 }
 
diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 78bb6fe..49cbdd5 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -297,13 +297,14 @@ int pt_qry_sync_forward(struct pt_query_decoder *decoder, uint64_t *ip)
 int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, first;
 
 	if (!decoder)
 		return -pte_invalid;
 
 	start = pt_qry_pos(decoder);
-	if (!start) {
+	first = !start;
+	if (first) {
 		const struct pt_config *config;
 
 		config = pt_qry_config(decoder);
@@ -315,7 +316,7 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 			return -pte_bad_config;
 	}
 
-	sync = start;
+	sync = first ? NULL : start;
 	for (;;) {
 		errcode = pt_qry_reset(decoder);
 		if (errcode < 0)
@@ -327,7 +328,7 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 				return errcode;
 
 			pos = pt_qry_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && (sync <= pos));
 
 		sync = pos;
 
@@ -344,9 +345,12 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 
 		/* When starting inside or right after PSB+, we may end up at
 		 * the same PSB again.  Skip it.
+		 *
+		 * When starting at the end of the trace, there needn't be
+		 * anything following the PSB+ we just read.
 		 */
 		pos = pt_qry_pos(decoder);
-		if (pos < start)
+		if (first || (pos < start))
 			return errcode;
 	}
 }
-- 
2.43.0


From f0684fa99fb8de48a0f6bd3ad3748970e278ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 11/40] fix: libipt: report the end of the trace when
 synchronising at its very end

pt_pkt_sync_forward() skipped a PSB that isn't there if the decoder had been
set to the end of the trace and failed with -pte_internal.
---
 libipt/src/pt_packet_decoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index bdabb03..6c1c974 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -101,8 +101,13 @@ int pt_pkt_sync_forward(struct pt_packet_decoder *decoder)
 	if (!pos)
 		pos = begin;
 
-	if (pos == sync)
+	if (pos == sync) {
+		/* There may be less than a PSB left. */
+		if ((decoder->config.end - pos) < ptps_psb)
+			return -pte_eos;
+
 		pos += ptps_psb;
+	}
 
 	if (pos < begin)
 		return -pte_internal;
-- 
2.43.0


From 7558bfee505c3170d42fe9653c83677174da1e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 12/40] fix: libipt: do not skip a corrupted TMA packet beyond
 the end of the trace (SKZ84)

---
 libipt/src/pt_packet_decoder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index 6c1c974..32339de 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -524,6 +524,8 @@ static int pt_pkt_decode_tma(struct pt_packet_decoder *decoder,
 		if (decoder->config.errata.skz84
 		    && (size == -pte_bad_packet)) {
 			size = ptps_tma + 1;
+			if ((decoder->config.end - decoder->pos) < size)
+				return -pte_eos;
 
 			packet->type = ppt_invalid;
 			packet->size = (uint8_t) size;
-- 
2.43.0


From 16029b2facf262f9d364c99108792434ab62e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 13/40] fix: libipt: do not recurse for every cached block on
 the way

A loop of direct branches without trace recursed up to 65535 times, which
may overflow the stack.
---
 libipt/src/pt_block_decoder.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 4aaab13..4bb84d0 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2682,6 +2682,8 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 	if (!decoder || !block)
 		return -pte_internal;
 
+	/* We may get here again as often as there is room in @block. */
+proceed:
 	offset = pt_msec_unmap(msec, decoder->ip);
 	status = pt_bcache_lookup(&bce, bcache, offset);
 	if (status < 0)
@@ -2780,8 +2782,7 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 		 */
 		block->iclass = ptic_unknown;
 
-		return pt_blk_proceed_no_event_cached(decoder, block, bcache,
-						      msec);
+		goto proceed;
 
 	case ptbq_cond:
 		/* We're at a conditional branch. */
@@ -2904,8 +2905,7 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 		if (!pt_blk_is_in_section(msec, decoder->ip))
 			return 0;
 
-		return pt_blk_proceed_no_event_cached(decoder, block, bcache,
-						      msec);
+		goto proceed;
 	}
 
 	case ptbq_ind_call: {
-- 
2.43.0


From 2a7329eed0e7e3310d5b6552716929088f9267d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 14/40] fix: libipt: forget the last packet on reset

The event decoder reported a position before the begin of the trace after
failing to synchronise.
---
 libipt/src/pt_event_decoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 118487e..9e86070 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -56,6 +56,7 @@ static int pt_evt_reset(struct pt_event_decoder *decoder)
 		return -pte_internal;
 
 	decoder->packet.type = ppt_invalid;
+	decoder->packet.size = 0;
 	decoder->status = -pte_nosync;
 	decoder->event = NULL;
 	decoder->enabled = 0;
-- 
2.43.0


From af02d03e73ce36d21a88b7add0566bce48b07bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 15/40] fix: libipt: copy only the part of a section that is in
 the source image

pt_image_copy() added the entire section for each part of a section that had
been split or truncated by other sections.
---
 libipt/src/pt_image.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index bcc1e58..13143ef 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -133,21 +133,25 @@ const char *pt_image_name(const struct pt_image *image)
 	return image->name;
 }
 
-int pt_image_add(struct pt_image *image, struct pt_section *section,
-		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+/* Add @size bytes of @section starting at @offset to @image at @vaddr.
+ *
+ * Returns zero on success, a negative error code otherwise.
+ */
+static int pt_image_add_part(struct pt_image *image, struct pt_section *section,
+			     const struct pt_asid *asid, uint64_t vaddr,
+			     uint64_t offset, uint64_t size, int isid)
 {
 	struct pt_section_list **list, *next, *removed, *new;
-	uint64_t size, begin, end;
+	uint64_t begin, end;
 	int errcode;
 
 	if (!image || !section)
 		return -pte_internal;
 
-	size = pt_section_size(section);
 	begin = vaddr;
 	end = begin + size;
 
-	next = pt_mk_section_list(section, asid, begin, 0ull, size, isid);
+	next = pt_mk_section_list(section, asid, begin, offset, size, isid);
 	if (!next)
 		return -pte_nomem;
 
@@ -245,6 +249,16 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	return 0;
 }
 
+int pt_image_add(struct pt_image *image, struct pt_section *section,
+		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+{
+	if (!section)
+		return -pte_internal;
+
+	return pt_image_add_part(image, section, asid, vaddr, 0ull,
+				 pt_section_size(section), isid);
+}
+
 int pt_image_remove(struct pt_image *image, struct pt_section *section,
 		    const struct pt_asid *asid, uint64_t vaddr)
 {
@@ -339,10 +353,13 @@ int pt_image_copy(struct pt_image *image, const struct pt_image *src)
 	for (list = src->sections; list; list = list->next) {
 		int errcode;
 
-		errcode = pt_image_add(image, list->section.section,
-				       &list->section.asid,
-				       list->section.vaddr,
-				       list->isid);
+		/* The section may have been split; we only have a part of it. */
+		errcode = pt_image_add_part(image, list->section.section,
+					    &list->section.asid,
+					    list->section.vaddr,
+					    list->section.offset,
+					    list->section.size,
+					    list->isid);
 		if (errcode < 0)
 			ignored += 1;
 	}
-- 
2.43.0


From a3d5833788b93fda77a42decf5e345a67c2481b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 16/40] fix: libipt: report errors reading a section from file

They had been reported as unmapped memory, which made the decoder use the
memory callback instead.
---
 libipt/src/pt_section_file.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_section_file.c b/libipt/src/pt_section_file.c
index 1ad445b..8dec86e 100644
--- a/libipt/src/pt_section_file.c
+++ b/libipt/src/pt_section_file.c
@@ -226,8 +226,10 @@ int pt_sec_file_read(const struct pt_section *section, uint8_t *buffer,
 		return errcode;
 
 	errcode = fseek(file, begin, SEEK_SET);
-	if (errcode)
-		goto out_unlock;
+	if (errcode) {
+		(void) fmap_unlock(mapping);
+		return -pte_bad_file;
+	}
 
 	read = fread(buffer, 1, size, file);
 
@@ -236,10 +238,6 @@ int pt_sec_file_read(const struct pt_section *section, uint8_t *buffer,
 		return errcode;
 
 	return (int) read;
-
-out_unlock:
-	(void) fmap_unlock(mapping);
-	return -pte_nomap;
 }
 
 int pt_sec_file_memsize(const struct pt_section *section, uint64_t *size)
-- 
2.43.0


From d3fa0a9b4f92c15d3a7042aa41a07529c8fe1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 17/40] fix: reject TNT-8 and CYC packets the encoder cannot
 express

A TNT-8 packet without branches was encoded as an extended opcode byte and
payload bits beyond the bit size changed the position of the stop bit.  A CYC
payload of more than 61 bits was written but cannot be read.
---
 libipt/src/pt_encoder.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index a84f0d6..ca326d5 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -325,7 +325,13 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 	case ppt_tnt_8: {
 		uint8_t opc, stop;
 
-		if (packet->payload.tnt.bit_size >= 7)
+		if (!packet->payload.tnt.bit_size ||
+		    packet->payload.tnt.bit_size >= 7)
+			return -pte_bad_packet;
+
+		/* Bits beyond @bit_size would corrupt the stop bit. */
+		if (packet->payload.tnt.payload >>
+		    packet->payload.tnt.bit_size)
 			return -pte_bad_packet;
 
 		errcode = pt_reserve(encoder, ptps_tnt_8);
@@ -493,6 +499,14 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 		uint8_t byte[pt_pl_cyc_max_size], index, end;
 		uint64_t ctc;
 
+		/* A 64-bit counter holds the payload of the opcode byte plus
+		 * that of eight extension bytes.  The decoder rejects longer
+		 * packets.
+		 */
+		if (packet->payload.cyc.value >>
+		    ((8 - pt_opm_cyc_shr) + 8 * (8 - pt_opm_cycx_shr)))
+			return -pte_bad_packet;
+
 		ctc = (uint8_t) packet->payload.cyc.value;
 		ctc <<= pt_opm_cyc_shr;
 
-- 
2.43.0


From c00d20661f78212e7d037df512519b53bf73f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 18/40] fix: pt_blk_time, pt_blk_core_bus_ratio: report missing
 time and ratio

The block decoder reported time zero and ratio zero with success when there
had not been a TSC or CBR packet, and rejected NULL lost_mtc and lost_cyc
arguments, which are documented as optional.
---
 libipt/src/pt_block_decoder.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 4bb84d0..3eb26b0 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -643,12 +643,18 @@ pt_blk_get_config(const struct pt_block_decoder *decoder)
 int pt_blk_time(struct pt_block_decoder *decoder, uint64_t *time,
 		uint32_t *lost_mtc, uint32_t *lost_cyc)
 {
-	if (!decoder || !time || !lost_mtc || !lost_cyc)
+	if (!decoder || !time)
 		return -pte_invalid;
 
 	*time = decoder->tsc;
-	*lost_mtc = decoder->lost_mtc;
-	*lost_cyc = decoder->lost_cyc;
+
+	if (lost_mtc)
+		*lost_mtc = decoder->lost_mtc;
+	if (lost_cyc)
+		*lost_cyc = decoder->lost_cyc;
+
+	if (!decoder->has_tsc)
+		return -pte_no_time;
 
 	return 0;
 }
@@ -658,6 +664,10 @@ int pt_blk_core_bus_ratio(struct pt_block_decoder *decoder, uint32_t *cbr)
 	if (!decoder || !cbr)
 		return -pte_invalid;
 
+	/* There is no CBR packet with a zero ratio. */
+	if (!decoder->cbr)
+		return -pte_no_cbr;
+
 	*cbr = decoder->cbr;
 
 	return 0;
-- 
2.43.0


From 74395f19466491e37aa30d1c7fae1711c797eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 19/40] fix: pt_time: count MTC and CYC packets dropped for
 lack of configuration

Without the cpuid 0x15 values, MTC packets are dropped but were not counted
as lost.
---
 libipt/src/pt_time.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_time.c b/libipt/src/pt_time.c
index 511f27c..2ebf66e 100644
--- a/libipt/src/pt_time.c
+++ b/libipt/src/pt_time.c
@@ -330,8 +330,10 @@ int pt_time_update_mtc(struct pt_time *time,
 	}
 
 	errcode = pt_time_ctc_fc(&tsc, ctc_delta, config);
-	if (errcode < 0)
+	if (errcode < 0) {
+		time->lost_mtc += 1;
 		return errcode;
+	}
 
 	base += tsc;
 	time->tsc = time->base = base;
@@ -426,8 +428,10 @@ int pt_time_update_cyc(struct pt_time *time,
 		int errcode;
 
 		errcode = pt_time_adjust_cyc(&cyc, time, config, fcr);
-		if (errcode < 0)
+		if (errcode < 0) {
+			time->lost_cyc += 1;
 			return errcode;
+		}
 	}
 
 	fc += (cyc * fcr) >> pt_tcal_fcr_shr;
-- 
2.43.0


From e324258815f6a7a60ffbfd9f11aa5ddbd476d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 20/40] fix: pt_blk_next: detect section splits in the middle
 of a cached branch

The block cache is shared between all users of a section.  When the section
gets split in the middle of the instruction at a cached decision point, we
used the cached branch without noticing that the instruction has been truncated
and that parts of it may have changed.  For taken conditional branches we failed
with -pte_bad_insn.
---
 libipt/src/pt_block_decoder.c | 40 ++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 3eb26b0..b8bfc91 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2236,6 +2236,41 @@ static inline int pt_blk_is_in_section(const struct pt_mapped_section *msec,
 	return (begin <= ip && ip < end);
 }
 
+/* Check if the decision point of @bce at @ip lies entirely within @msec.
+ *
+ * The decision point instruction may have been truncated by a section split
+ * after it had been cached.
+ *
+ * Returns non-zero if it does.
+ * Returns zero if it doesn't.
+ */
+static inline int
+pt_blk_is_decision_in_section(const struct pt_mapped_section *msec, uint64_t ip,
+			      struct pt_bcache_entry bce)
+{
+	uint64_t size;
+
+	if (!pt_blk_is_in_section(msec, ip))
+		return 0;
+
+	switch (pt_bce_qualifier(bce)) {
+	case ptbq_again:
+	case ptbq_decode:
+		/* We have not reached the decision point, yet, or we are going
+		 * to decode it and detect any truncation.
+		 */
+		return 1;
+
+	default:
+		break;
+	}
+
+	/* We do not know the size of overly long instructions.  */
+	size = bce.isize ? bce.isize : pt_max_insn_size;
+
+	return size <= (pt_msec_end(msec) - ip);
+}
+
 /* Insert a trampoline block cache entry.
  *
  * Add a trampoline block cache entry at @ip to continue at @nip, where @nip
@@ -2732,10 +2767,13 @@ proceed:
 	 * in the case of a near direct backward branch) we will detect all
 	 * section splits.
 	 *
+	 * The split may also be in the middle of the instruction at the
+	 * decision point.
+	 *
 	 * Switch to the slow path until we reach the end of this section.
 	 */
 	nip = decoder->ip + (uint64_t) (int64_t) bce.displacement;
-	if (!pt_blk_is_in_section(msec, nip))
+	if (!pt_blk_is_decision_in_section(msec, nip, bce))
 		return pt_blk_proceed_no_event_uncached(decoder, block);
 
 	/* We have a valid cache entry.  Let's first check if the way to the
-- 
2.43.0


From 04b2cb66a065da533fa1bd16e099955cb5b277f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 21/40] fix: pt_iscache_alloc: report initialisation failures

pt_iscache_alloc() ignored errors from pt_iscache_init().  If the name could
not be copied or the lock could not be initialised, the user got a cache
without a working lock.  Return NULL as documented.
---
 libipt/src/pt_image_section_cache.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index 4310313..1b30718 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -852,8 +852,16 @@ struct pt_image_section_cache *pt_iscache_alloc(const char *name)
 	struct pt_image_section_cache *iscache;
 
 	iscache = malloc(sizeof(*iscache));
-	if (iscache)
-		pt_iscache_init(iscache, name);
+	if (iscache) {
+		int errcode;
+
+		errcode = pt_iscache_init(iscache, name);
+		if (errcode < 0) {
+			free(iscache->name);
+			free(iscache);
+			return NULL;
+		}
+	}
 
 	return iscache;
 }
-- 
2.43.0


From b53239ff161a5f9b042bac45c975b06b96016ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 22/40] fix: pt_section: read the attached image section cache
 atomically

pt_section_on_map() reads @section->iscache without holding the attach lock
while other threads may attach the section to an image section cache.  Like
for @bcache, make the field atomic so this is not a data race.
---
 libipt/internal/include/pt_section.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/internal/include/pt_section.h b/libipt/internal/include/pt_section.h
index 475ff60..21c2a1e 100644
--- a/libipt/internal/include/pt_section.h
+++ b/libipt/internal/include/pt_section.h
@@ -105,7 +105,7 @@ struct pt_section {
 	 * In addition to attaching, the iscache will need to obtain a reference
 	 * to the section, which it needs to drop again after detaching.
 	 */
-	struct pt_image_section_cache *iscache;
+	struct pt_image_section_cache * PT_ATOMIC iscache;
 
 	/* A pointer to the unmap function - NULL if the section is currently
 	 * not mapped.
-- 
2.43.0


From 60a53004dd365fb0adcff269e61eb566cff98532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 23/40] fix: report a truncated record as bad packet in
 pev_read

A MMAP, MMAP2, or COMM record whose size does not even cover the fixed part
was reported as -pte_internal, the error for passing NULL.
---
 pevent/src/pevent.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pevent/src/pevent.c b/pevent/src/pevent.c
index 48a003f..617f8ce 100644
--- a/pevent/src/pevent.c
+++ b/pevent/src/pevent.c
@@ -112,9 +112,10 @@ static int pev_strlen(const char *begin, const void *end_arg)
 	if (!begin || !end_arg)
 		return -pte_internal;
 
+	/* The packet may end before the string even begins. */
 	end = (const char *) end_arg;
 	if (end < begin)
-		return -pte_internal;
+		return -pte_bad_packet;
 
 	for (pos = begin; pos < end; ++pos) {
 		if (!pos[0])
-- 
2.43.0


From 5e86c71fd37da41a272a5e7eadd47c4789b179c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 24/40] fix: report sideband files that cannot be read
 completely

A read error or a short read silently truncated the sideband stream.  A begin
offset beyond the end of the file tried to allocate an absurd amount of memory.
---
 sideband/src/pt_sb_file.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sideband/src/pt_sb_file.c b/sideband/src/pt_sb_file.c
index 4591bcc..fb1cc36 100644
--- a/sideband/src/pt_sb_file.c
+++ b/sideband/src/pt_sb_file.c
@@ -76,6 +76,10 @@ int pt_sb_file_load(void **pbuffer, size_t *psize, const char *filename,
 			fend = fsize;
 	}
 
+	/* There is nothing to read if we are to start beyond the end. */
+	if (fend < fbegin)
+		goto out_file;
+
 	size = (size_t) (fend - fbegin);
 
 	errcode = fseek(file, fbegin, SEEK_SET);
@@ -88,7 +92,13 @@ int pt_sb_file_load(void **pbuffer, size_t *psize, const char *filename,
 		return -pte_nomem;
 	}
 
-	*psize = fread(content, 1, size, file);
+	/* Do not present a partially read file as complete. */
+	if (fread(content, 1, size, file) != size) {
+		free(content);
+		goto out_file;
+	}
+
+	*psize = size;
 	*pbuffer = content;
 
 	fclose(file);
-- 
2.43.0


From 3b9a544c0b01fe1ca9b66e9e009512e659d147bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 25/40] fix: do not free the sideband decoder's data twice or
 not at all

When initializing a sideband pevent decoder ran out of memory or was given an
overlong path, pt_sb_pevent_init destroyed the private data, including the
object itself, which pt_sb_alloc_pevent_decoder freed again.  When allocating
the generic decoder failed, the stream buffer and paths were leaked.
---
 sideband/src/pt_sb_pevent.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 83dac5e..954bd3e 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -291,6 +291,9 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	if (!priv || !config)
 		return -pte_internal;
 
+	/* The caller destroys @priv if we fail. */
+	memset(priv, 0, sizeof(*priv));
+
 	/* This is the first version - we need all the fields. */
 	if (config->size < sizeof(*config))
 		return -pte_invalid;
@@ -306,40 +309,29 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	if (errcode < 0)
 		return errcode;
 
-	memset(priv, 0, sizeof(*priv));
 	priv->begin = (uint8_t *) buffer;
 	priv->end = (uint8_t *) buffer + size;
 	priv->next = (uint8_t *) buffer;
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	errcode = pt_sb_pevent_init_path(&priv->sysroot, config->sysroot);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x64, config->vdso_x64);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x32, config->vdso_x32);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_ia32, config->vdso_ia32);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	pev_config_init(&priv->pev);
 	priv->pev.sample_type = config->sample_type;
@@ -1784,7 +1776,7 @@ int pt_sb_alloc_pevent_decoder(struct pt_sb_session *session,
 
 	errcode = pt_sb_pevent_init(priv, pev);
 	if (errcode < 0) {
-		free(priv);
+		pt_sb_pevent_dtor(priv);
 		return errcode;
 	}
 
@@ -1798,7 +1790,7 @@ int pt_sb_alloc_pevent_decoder(struct pt_sb_session *session,
 
 	errcode = pt_sb_alloc_decoder(session, &config);
 	if (errcode < 0)
-		free(priv);
+		pt_sb_pevent_dtor(priv);
 
 	return errcode;
 }
-- 
2.43.0


From 8c11b7b6e7b35b8906a16cd359273641f8d96834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 26/40] fix: saturate sideband timestamps with negative offsets

A negative tsc offset that would move a record beyond the largest timestamp
wrapped around and had the record applied at once.
---
 sideband/src/pt_sb_pevent.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 954bd3e..f53b64b 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -395,17 +395,16 @@ static int pt_sb_pevent_fetch(uint64_t *ptsc, struct pt_sb_pevent_priv *priv)
 	 */
 	offset = priv->tsc_offset;
 	tsc = event->sample.tsc;
-	if (offset <= tsc)
-		tsc -= offset;
-	else {
-		if (0ll <= (int64_t) offset)
+	if (0ll <= (int64_t) offset) {
+		if (offset <= tsc)
+			tsc -= offset;
+		else
 			tsc = 0ull;
-		else {
-			if (tsc <= offset)
-				tsc -= offset;
-			else
-				tsc = UINT64_MAX;
-		}
+	} else {
+		if (tsc < offset)
+			tsc -= offset;
+		else
+			tsc = UINT64_MAX;
 	}
 
 	/* We update the event record's timestamp, as well, so we will print the
-- 
2.43.0


From 45edb6f219c5f1fe2f754cbea681ab4c4403b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 27/40] fix: report a failure to copy the image name in
 pt_image_alloc()

---
 libipt/src/pt_image.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index 13143ef..2b7daf4 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -113,8 +113,15 @@ struct pt_image *pt_image_alloc(const char *name)
 	struct pt_image *image;
 
 	image = malloc(sizeof(*image));
-	if (image)
-		pt_image_init(image, name);
+	if (!image)
+		return NULL;
+
+	pt_image_init(image, name);
+
+	if (name && !image->name) {
+		pt_image_free(image);
+		return NULL;
+	}
 
 	return image;
 }
-- 
2.43.0


From ed57f1416f8435c4fb301a4399863f41bea53876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 28/40] fix: report incomplete copies of the kernel's and the
 parent's image

---
 sideband/src/pt_sb_pevent.c  | 6 +++++-
 sideband/src/pt_sb_session.c | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index f53b64b..0c9bd1d 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1091,7 +1091,11 @@ static int pt_sb_pevent_fork(struct pt_sb_session *session,
 		return -pte_internal;
 
 	/* Initialize the child's image with its parent's. */
-	return pt_image_copy(image, pimage);
+	errcode = pt_image_copy(image, pimage);
+	if (errcode > 0)
+		errcode = -pte_nomem;
+
+	return errcode;
 }
 
 static int pt_sb_pevent_exec(struct pt_sb_session *session,
diff --git a/sideband/src/pt_sb_session.c b/sideband/src/pt_sb_session.c
index 1a8e043..8975d27 100644
--- a/sideband/src/pt_sb_session.c
+++ b/sideband/src/pt_sb_session.c
@@ -155,6 +155,9 @@ static int pt_sb_add_context_by_pid(struct pt_sb_context **pcontext,
 		return -pte_nomem;
 
 	errcode = pt_image_copy(context->image, kernel);
+	if (errcode > 0)
+		errcode = -pte_nomem;
+
 	if (errcode < 0) {
 		(void) pt_sb_ctx_put(context);
 		return errcode;
-- 
2.43.0


From 45dcb272576b2e50052e6c4ee00c7b3deddfe468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 29/40] fix: copy the sample configuration into the sideband
 decoder

The perf event decoder kept using its caller's sample configuration.  Both
ptdump and ptxed extend it with realloc() when processing the next
--pevent:sample-config option, so decoders added before used freed memory.
---
 sideband/src/pt_sb_pevent.c | 42 +++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 0c9bd1d..c735974 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -247,6 +247,7 @@ static void pt_sb_pevent_dtor(void *priv_arg)
 	free(priv->vdso_x64);
 	free(priv->vdso_x32);
 	free(priv->vdso_ia32);
+	free(priv->pev.sample_config);
 	free(priv->begin);
 	free(priv);
 }
@@ -280,6 +281,36 @@ static int pt_sb_pevent_init_path(char **dst, const char *src)
 	return 0;
 }
 
+#if (LIBIPT_SB_VERSION >= 0x201)
+
+static int pt_sb_pevent_init_sample_config(struct pev_sample_config **dst,
+					   const struct pev_sample_config *src)
+{
+	struct pev_sample_config *copy;
+	size_t size;
+
+	if (!dst)
+		return -pte_internal;
+
+	if (!src) {
+		*dst = NULL;
+		return 0;
+	}
+
+	size = sizeof(*src) + (src->nstypes * sizeof(src->stypes[0]));
+	copy = malloc(size);
+	if (!copy)
+		return -pte_nomem;
+
+	memcpy(copy, src, size);
+
+	*dst = copy;
+
+	return 0;
+}
+
+#endif /* (LIBIPT_SB_VERSION >= 0x201) */
+
 int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 		      const struct pt_sb_pevent_config *config)
 {
@@ -344,8 +375,15 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	priv->location = ploc_unknown;
 
 #if (LIBIPT_SB_VERSION >= 0x201)
-	if (pev_config_has(config, sample_config))
-		priv->pev.sample_config = config->sample_config;
+	/* The configuration belongs to our caller, who may change or free it
+	 * while we're still using it.
+	 */
+	if (pev_config_has(config, sample_config)) {
+		errcode = pt_sb_pevent_init_sample_config(
+			&priv->pev.sample_config, config->sample_config);
+		if (errcode < 0)
+			return errcode;
+	}
 #endif
 
 	return 0;
-- 
2.43.0


From 3751dab2bf65c089a28e71569e8a2caa49572917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 30/40] fix: ptdump: fail if the packet decoder cannot be
 allocated

---
 ptdump/src/ptdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index a2daba6..906f4dc 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1551,7 +1551,7 @@ static int dump(struct ptdump_tracking *tracking,
 
 	decoder = pt_pkt_alloc_decoder(config);
 	if (!decoder)
-		return diag("failed to allocate decoder", 0ull, 0);
+		return diag("failed to allocate decoder", 0ull, -pte_nomem);
 
 	errcode = dump_sync(decoder, tracking, options, config);
 
-- 
2.43.0


From 3e869adfe87fc8b06e2b8b7888565bc88fba35eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 31/40] fix: ptdump: clear last-ip on PSB

---
 ptdump/src/ptdump.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index 906f4dc..942320b 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1085,6 +1085,9 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 				diag("error calibrating time", offset, errcode);
 		}
 
+		/* The trace hardware clears last-ip on PSB. */
+		pt_last_ip_init(&tracking->last_ip);
+
 		tracking->in_header = 1;
 		return 0;
 
-- 
2.43.0


From f255dd788f065ba98c42ce1db8d53ac4df0b6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 32/40] fix: ptdump: leave the PSB+ header on overflow

---
 ptdump/src/ptdump.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index 942320b..ac2b551 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1122,6 +1122,8 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 				pt_tcal_init(&tracking->tcal);
 		}
 
+		/* An overflow ends PSB+ without PSBEND. */
+		tracking->in_header = 0;
 		return 0;
 
 	case ppt_stop:
-- 
2.43.0


From 8d2c5dfd1969afc61a1f4a780167b400fadb353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 33/40] fix: detach sections before clearing the iscache lru

pt_iscache_clear() emptied the LRU cache before detaching the sections.  An
image that reads one of the sections from another thread in between adds it
again and the LRU entry and the section's mapping are never released.

Detach all sections, first.
---
 libipt/src/pt_image_section_cache.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index 1b30718..0851702 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -796,7 +796,6 @@ int pt_iscache_lookup(struct pt_image_section_cache *iscache,
 
 int pt_iscache_clear(struct pt_image_section_cache *iscache)
 {
-	struct pt_iscache_lru_entry *lru;
 	struct pt_iscache_entry *entries;
 	uint16_t idx, end;
 	int errcode;
@@ -810,35 +809,35 @@ int pt_iscache_clear(struct pt_image_section_cache *iscache)
 
 	entries = iscache->entries;
 	end = iscache->size;
-	lru = iscache->lru;
 
 	iscache->entries = NULL;
 	iscache->capacity = 0;
 	iscache->size = 0;
-	iscache->lru = NULL;
-	iscache->used = 0ull;
 
 	errcode = pt_iscache_unlock(iscache);
 	if (errcode < 0)
 		return errcode;
 
-	errcode = pt_iscache_lru_free(lru);
-	if (errcode < 0)
-		return errcode;
-
+	/* Detach all sections before clearing the LRU cache.
+	 *
+	 * Sections may still be used by images.  As long as a section is
+	 * attached, mapping it adds it to our LRU cache.
+	 */
 	for (idx = 0; idx < end; ++idx) {
-		struct pt_section *section;
-
-		section = entries[idx].section;
-
 		/* We do not zero-initialize the array - a NULL check is
 		 * pointless.
 		 */
-		errcode = pt_section_detach(section, iscache);
+		errcode = pt_section_detach(entries[idx].section, iscache);
 		if (errcode < 0)
 			return errcode;
+	}
 
-		errcode = pt_section_put(section);
+	errcode = pt_iscache_lru_clear(iscache);
+	if (errcode < 0)
+		return errcode;
+
+	for (idx = 0; idx < end; ++idx) {
+		errcode = pt_section_put(entries[idx].section);
 		if (errcode < 0)
 			return errcode;
 	}
-- 
2.43.0


From 3c34edf2c4610f92cdd59ff18924b3c00a0db5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 34/40] fix: clear the event decoder's stored error when
 fetching a packet

An overflow resets the event decoder, which stores -pte_nosync to be
delivered with the next invalid packet.  The error was never cleared.

When SKZ84 causes the packet decoder to indicate a corrupted TMA packet as
ppt_invalid some time later, the event decoder is supposed to skip it.  It
failed with -pte_nosync, instead.
---
 libipt/src/pt_event_decoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 9e86070..c096323 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -166,6 +166,9 @@ static int pt_evt_fetch_packet(struct pt_event_decoder *decoder)
 
 			break;
 		}
+
+		/* We have a packet - any previous error no longer applies. */
+		decoder->status = 0;
 	} while (decoder->packet.type == ppt_pad);
 
 	return 0;
-- 
2.43.0


From 4300a3ea1ae2d0c82acbd4ac5ef7c6d634ecf853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 35/40] fix: skip corrupted TMA packets when checking for BDM70

With SKZ84, a corrupted TMA packet is indicated as ppt_invalid.  We skip it
when decoding the PSB+ header but stopped searching for TIP.PGE when checking
for BDM70, thus missing the erratum.
---
 libipt/src/pt_event_decoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index c096323..8a1c836 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -636,6 +636,7 @@ static int pt_evt_check_bdm70(struct pt_event_decoder *decoder)
 		case ppt_mtc:
 		case ppt_cyc:
 		case ppt_mnt:
+		case ppt_invalid:
 			/* Intentionally skip a few packets. */
 			break;
 		}
-- 
2.43.0


From c444be4583def709bb0a0b5ce185eb1c191caf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 36/40] fix: continue searching for the SKL014 branch in the
 next block

When the user asked to end blocks on calls or jumps, we indicated that the
disabled event's location was reached on the first direct call or jump that
stays inside the filter region.

Indicate that we did not yet reach the event location and continue in the
next block.
---
 libipt/src/pt_block_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index b8bfc91..951488d 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1218,7 +1218,7 @@ static int pt_blk_proceed_skl014(struct pt_block_decoder *decoder,
 		    (insn->iclass == ptic_call)) ||
 		    (decoder->flags.variant.block.end_on_jump &&
 		    (insn->iclass == ptic_jump)))
-			break;
+			return 0;
 	}
 
 	return status;
-- 
2.43.0


From b91920426448d1871b15aa45e1e8aef685c126be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 37/40] fix: end the block on SKD022 if the user asked us to

If a direct call or jump took us to the VMLAUNCH or VMRESUME at which tracing
was disabled, SKD022 handling continued in the same block ignoring end_on_call
and end_on_jump.
---
 libipt/src/pt_block_decoder.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 951488d..e735e59 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1869,6 +1869,9 @@ static int pt_blk_proceed_event(struct pt_block_decoder *decoder,
 	case ptev_async_disabled: {
 		const struct pt_config *config;
 
+		/* We may already be there. */
+		insn.iclass = ptic_unknown;
+
 		status = pt_blk_proceed_to_ip(decoder, block, &insn, &iext,
 					      ev->variant.async_disabled.at);
 		if (status <= 0)
@@ -1885,8 +1888,13 @@ static int pt_blk_proceed_event(struct pt_block_decoder *decoder,
 					return status;
 
 				/* If the erratum hits, we modify the event.
-				 * Try again.
+				 *
+				 * The branch that brought us here may have
+				 * ended the block.  Try again, otherwise.
 				 */
+				if (pt_blk_is_block_end(decoder, &insn))
+					return 0;
+
 				return pt_blk_proceed_event(decoder, block);
 			}
 		}
-- 
2.43.0


From 51c71b52a69da92ea3c84382f65adc71d330f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:52 +0000
Subject: [PATCH 38/40] fix: skip unknown packets inside PSB+

The documentation says that packets the user's decode callback knows the size
of are skipped.  The event decoder failed with -pte_bad_context when it found
one inside PSB+.
---
 libipt/src/pt_event_decoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 8a1c836..d92c32c 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -260,6 +260,7 @@ static int pt_evt_find_header_fup(struct pt_packet *packet,
 		case ppt_mtc:
 		case ppt_cyc:
 		case ppt_pad:
+		case ppt_unknown:
 		case ppt_invalid:
 			/* Ignore the packet. */
 			break;
@@ -1418,6 +1419,8 @@ static int pt_evt_decode_psb(struct pt_event_decoder *decoder)
 		}
 
 		case ppt_pad:
+		case ppt_unknown:
+			/* Skip unknown packets if the user could decode them. */
 			break;
 
 		case ppt_invalid:
-- 
2.43.0


From 02e0e9ea7b4b9e36edbdebcf10298714111c2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:16 +0000
Subject: [PATCH 39/40] fix: refuse event structures that are too small

---
 libipt/src/pt_block_decoder.c | 4 ++++
 libipt/src/pt_insn_decoder.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index e735e59..5e675bf 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -39,6 +39,7 @@
 #include "intel-pt.h"
 
 #include <string.h>
+#include <stddef.h>
 #include <stdlib.h>
 
 
@@ -4285,6 +4286,9 @@ int pt_blk_event(struct pt_block_decoder *decoder, struct pt_event *uevent,
 	if (!decoder || !uevent)
 		return -pte_invalid;
 
+	if (size < offsetof(struct pt_event, variant))
+		return -pte_invalid;
+
 	/* Report any deferred event decode errors. */
 	errcode = decoder->status;
 	if (errcode < 0)
diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 8cdb979..a54fd30 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -36,6 +36,7 @@
 #include "intel-pt.h"
 
 #include <string.h>
+#include <stddef.h>
 #include <stdlib.h>
 
 
@@ -2002,6 +2003,9 @@ int pt_insn_event(struct pt_insn_decoder *decoder, struct pt_event *uevent,
 	if (!decoder || !uevent)
 		return -pte_invalid;
 
+	if (size < offsetof(struct pt_event, variant))
+		return -pte_invalid;
+
 	/* We must currently process an event. */
 	if (!decoder->process_event)
 		return -pte_bad_query;
-- 
2.43.0


From 38d12f1613a058fe4da1ffdc9b8a5251cffae4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:37 +0000
Subject: [PATCH 40/40] fix: do not find the same PSB again synchronising the
 instruction flow decoder backward

---
 libipt/src/pt_insn_decoder.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index a54fd30..038c09a 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -350,16 +350,32 @@ int pt_insn_sync_forward(struct pt_insn_decoder *decoder)
 
 int pt_insn_sync_backward(struct pt_insn_decoder *decoder)
 {
+	const uint8_t *start, *pos;
 	int status;
 
 	if (!decoder)
 		return -pte_invalid;
 
-	pt_insn_reset(decoder);
+	start = pt_qry_pos(&decoder->query);
+	for (;;) {
+		pt_insn_reset(decoder);
 
-	status = pt_qry_sync_backward(&decoder->query, &decoder->ip);
+		status = pt_qry_sync_backward(&decoder->query, &decoder->ip);
+		if (status < 0)
+			return status;
 
-	return pt_insn_start(decoder, status);
+		pos = pt_qry_pos(&decoder->query);
+
+		status = pt_insn_start(decoder, status);
+
+		/* We may read beyond PSB+ when we start.  When starting there,
+		 * we may end up at the same PSB again.  Skip it.
+		 */
+		if (!start || (pt_qry_pos(&decoder->query) < start))
+			return status;
+
+		decoder->query.evdec.pacdec.pos = pos;
+	}
 }
 
 int pt_insn_sync_set(struct pt_insn_decoder *decoder, uint64_t offset)
-- 
2.43.0

