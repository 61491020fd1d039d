From 639fa03d07b06fb2f355430efe305b0677978588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:57 +0000
Subject: [PATCH 01/12] fix: reject a signature that ends inside a weak sum

rs_loadsig_s_weak() took any end of input as the regular end of the
signature, so a signature cut 1 to 3 bytes into a block sum was loaded as if
it were complete. Only accept the end of input on a block sum boundary.
---
 src/readsums.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index 61ba84a..927f773 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -57,7 +57,8 @@ static rs_result rs_loadsig_s_weak(rs_job_t *job)
     rs_result result;
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE) {
-        if (result == RS_INPUT_ENDED)   /* ending here is OK */
+        /* Ending here is OK, but not part way through a weak sum. */
+        if (result == RS_INPUT_ENDED && rs_scoop_eof(job))
             return RS_DONE;
         return result;
     }
-- 
2.43.0


From 87c99957dfbf5b8672e1316a5c3cdafd3d218948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:57 +0000
Subject: [PATCH 02/12] fix: reject zero magic and strong sum length when
 loading a signature

rs_signature_init() takes zero as a request for the default, which is right
for rs_sig_begin() arguments but not for values read from a signature: bytes
that are no signature at all were loaded as one with the default magic or
strong sum length.
---
 src/readsums.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index 927f773..72586b9 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -87,7 +87,7 @@ static rs_result rs_loadsig_s_stronglen(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
-    if (l < 0 || l > RS_MAX_STRONG_SUM_LENGTH) {
+    if (l < 1 || l > RS_MAX_STRONG_SUM_LENGTH) {
         rs_error("strong sum length %d is implausible", l);
         return RS_CORRUPT;
     }
@@ -127,6 +127,11 @@ static rs_result rs_loadsig_s_magic(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
+    if (!l) {
+        /* Zero is not a magic, it asks rs_signature_init() for the default. */
+        rs_error("signature magic of %#x is bogus", l);
+        return RS_BAD_MAGIC;
+    }
     rs_trace("got signature magic %#x", l);
     job->sig_magic = l;
     job->statefn = rs_loadsig_s_blocklen;
-- 
2.43.0


From 563468b81f553e8a2763b5d93e0b46a08e5e6f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:27 +0000
Subject: [PATCH 03/12] fix: limit literals of slack deltas to what fits their
 length

rs_delta_s_slack() cast the size of the available input to int, so an input
buffer of 2GiB or more produced a literal command with a wrong length.
---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index de65a8c..3a74ed6 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -90,6 +90,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "librsync.h"
 #include "job.h"
@@ -368,6 +369,9 @@ static rs_result rs_delta_s_slack(rs_job_t *job)
 {
     size_t avail = rs_scoop_avail(job);
 
+    /* The length of a literal command is an int. */
+    if (avail > INT_MAX)
+        avail = INT_MAX;
     if (avail) {
         rs_trace("emit slack delta for " FMT_SIZE " available bytes", avail);
         rs_emit_literal_cmd(job, (int)avail);
-- 
2.43.0


From e8d940fa25a33b0ba042bd4d0bfa8d4dcdbf0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:27 +0000
Subject: [PATCH 04/12] fix: keep rs_format_stats() inside a small buffer

snprintf() returns the length it would have written, so after a truncation
the remaining size wrapped around and later fields were written past the end
of the caller's buffer.
---
 src/stats.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 5fabb8d..fb46ee0 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -46,7 +46,10 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
     if (!op)
         op = "noop";
 
+    /* Truncated output has len > size, so limit it to stay inside buf. */
     len = snprintf(buf, size, "%s statistics: ", op);
+    if ((size_t)len > size)
+        len = (int)size;
 
     if (stats->lit_cmds) {
         len +=
@@ -54,6 +57,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      "literal[%d cmds, " FMT_LONG " bytes, " FMT_LONG
                      " cmdbytes] ", stats->lit_cmds, stats->lit_bytes,
                      stats->lit_cmdbytes);
+        if ((size_t)len > size)
+            len = (int)size;
     }
 
     if (stats->sig_cmds) {
@@ -61,6 +66,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "in-place-signature[" FMT_LONG " cmds, " FMT_LONG
                      " bytes] ", stats->sig_cmds, stats->sig_bytes);
+        if ((size_t)len > size)
+            len = (int)size;
     }
 
     if (stats->copy_cmds || stats->false_matches) {
@@ -70,6 +77,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      " cmdbytes, %d false]", stats->copy_cmds,
                      stats->copy_bytes, stats->copy_cmdbytes,
                      stats->false_matches);
+        if ((size_t)len > size)
+            len = (int)size;
     }
 
     if (stats->sig_blocks) {
@@ -77,6 +86,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "signature[" FMT_LONG " blocks, " FMT_SIZE
                      " bytes per block]", stats->sig_blocks, stats->block_len);
+        if ((size_t)len > size)
+            len = (int)size;
     }
 
     sec = (int)(stats->end - stats->start);
-- 
2.43.0


From 25fbcb87a45ba07e8834946c08550be27ed89200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:02 +0000
Subject: [PATCH 05/12] fix: do not overflow the file buffer size for huge
 blocks

Four times the block length does not fit an int for blocks of 512MiB and
more, so rs_sig_file() and rs_delta_file() asked for a buffer of negative
size. Use the largest buffer size instead.
---
 src/whole.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/whole.c b/src/whole.c
index ebce253..dfe0a00 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -28,6 +28,7 @@
                                */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include "librsync.h"
@@ -78,7 +79,8 @@ rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
         return r;
     job = rs_sig_begin(block_len, strong_len, sig_magic);
     /* Size inbuf for 4 blocks, outbuf for header + 4 blocksums. */
-    r = rs_whole_run(job, old_file, sig_file, 4 * (int)block_len,
+    r = rs_whole_run(job, old_file, sig_file,
+                     block_len > INT_MAX / 4 ? INT_MAX : 4 * (int)block_len,
                      12 + 4 * (4 + (int)strong_len));
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
@@ -114,7 +116,8 @@ rs_result rs_delta_file(rs_signature_t *sig, FILE *new_file, FILE *delta_file,
     job = rs_delta_begin(sig);
     /* Size inbuf for 4*(CMD + 1 block), outbuf for 4*CMD. */
     r = rs_whole_run(job, new_file, delta_file,
-                     4 * (MAX_DELTA_CMD + sig->block_len), 4 * MAX_DELTA_CMD);
+                     sig->block_len > INT_MAX / 4 - MAX_DELTA_CMD ? INT_MAX
+                     : 4 * (MAX_DELTA_CMD + sig->block_len), 4 * MAX_DELTA_CMD);
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
-- 
2.43.0


From 1d3db9ef8be5966647b3714024fa8eeb5e12b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:02 +0000
Subject: [PATCH 06/12] fix: fail a patch when the copy callback has no more
 data

A copy_cb that returned RS_DONE with a length of zero was called again for
ever, without returning to the caller of rs_job_iter().
---
 src/patch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/patch.c b/src/patch.c
index 7e353d9..1b43ad4 100644
--- a/src/patch.c
+++ b/src/patch.c
@@ -178,6 +178,10 @@ static rs_result rs_patch_s_copying(rs_job_t *job)
         return result;
     }
     rs_trace("got " FMT_SIZE " bytes back from basis callback", len);
+    if (!len) {
+        rs_error("basis ended with " FMT_LONG " bytes left to copy", req);
+        return RS_INPUT_ENDED;
+    }
     /* Actual copied length cannot be greater than requested length. */
     assert(len <= req);
     /* Backwards-compatible defensively handle this for NDEBUG builds. */
-- 
2.43.0


From 8a730fe1ae0989883e24f974bf1c35c2f4c4f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:02 +0000
Subject: [PATCH 07/12] fix: let the copy callback block more than once

When copy_cb returned RS_BLOCKED again on the next call, rs_job_iter() took
it for a job that makes no progress and failed it with RS_INTERNAL_ERROR
instead of returning RS_BLOCKED.
---
 src/job.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/job.c b/src/job.c
index 462e772..20cbc37 100644
--- a/src/job.c
+++ b/src/job.c
@@ -93,7 +93,10 @@ rs_result rs_job_iter(rs_job_t *job, rs_buffers_t *buffers)
     orig_in = buffers->avail_in;
     orig_out = buffers->avail_out;
     result = rs_job_work(job, buffers);
-    if (result == RS_BLOCKED || result == RS_DONE)
+    /* A patch job in the middle of a COPY is waiting for its copy callback,
+       which may block no matter what input and output is available. */
+    if ((result == RS_BLOCKED && !(job->copy_cb && job->basis_len))
+        || result == RS_DONE)
         if ((orig_in == buffers->avail_in) && (orig_out == buffers->avail_out)
             && orig_in && orig_out) {
             rs_error("internal error: job made no progress " "[orig_in="
-- 
2.43.0


From f71aa51866bab257865f47c66124324d3176ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:02 +0000
Subject: [PATCH 08/12] fix: bound the memory a delta job uses when its output
 is slow

On every call rs_getinput() moved all available input into the scoop, even
if the scoop already held plenty. A caller that always offers input, but less
output space than that input produces, made the scoop grow to the size of the
whole file. Only add input when the scoop holds less than is needed to scan.
---
 src/delta.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/delta.c b/src/delta.c
index 3a74ed6..40dc33e 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -148,6 +148,9 @@ static rs_result rs_delta_s_scan(rs_job_t *job)
             result = rs_appendmiss(job, 1);
         }
     }
+    /* if there is more input than we scanned, scan that too */
+    if (result == RS_DONE && job->scan_len < rs_scoop_avail(job))
+        return RS_RUNNING;
     /* if we completed OK */
     if (result == RS_DONE) {
         /* if we reached eof, we can flush the last fragment */
@@ -212,7 +215,11 @@ static inline rs_result rs_getinput(rs_job_t *job, size_t block_len)
 {
     size_t min_len = block_len + MAX_DELTA_CMD;
 
-    job->scan_len = rs_scoop_avail(job);
+    /* Don't keep adding input to a scoop that is already full enough, it would
+       grow without limit if the output is slower than the input. */
+    job->scan_len = job->scoop_avail;
+    if (job->scan_len < job->scan_pos + min_len)
+        job->scan_len = rs_scoop_avail(job);
     if (job->scan_len < min_len && !job->stream->eof_in)
         job->scan_len = min_len;
     return rs_scoop_readahead(job, job->scan_len, (void **)&job->scan_buf);
-- 
2.43.0


From d70ae6275be162c450569caa24a886c88bf9551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:16 +0000
Subject: [PATCH 09/12] fix: report errors closing the output of rdiff

Output that is still in the stdio buffer is only written when the file is
closed, or when the process exits for standard output. rdiff ignored failures
there and exited with status 0, leaving a truncated output, e.g. on a full
disk. Make rs_file_close() flush standard output so its result can be used.
---
 src/fileutil.c |  4 +++-
 src/rdiff.c    | 20 +++++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index 676d2d0..cd31910 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -119,8 +119,10 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
 
 int rs_file_close(FILE *f)
 {
-    if ((f == stdin) || (f == stdout))
+    if (f == stdin)
         return 0;
+    if (f == stdout)
+        return fflush(f);
     return fclose(f);
 }
 
diff --git a/src/rdiff.c b/src/rdiff.c
index 29ca892..9a4a047 100644
--- a/src/rdiff.c
+++ b/src/rdiff.c
@@ -44,6 +44,7 @@
  * \todo Add an option for delta to check whether the files are identical. */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <errno.h>
 #include <stdlib.h>
 #include <stdarg.h>
 #include <string.h>
@@ -190,6 +191,19 @@ static void rdiff_options(poptContext opcon)
     }
 }
 
+/** Close an output file, turning success into failure if that fails.
+ *
+ * The last of the data may only be written here, so until this succeeds we
+ * can't say that the output is complete. */
+static rs_result rdiff_close_output(FILE *f, rs_result result)
+{
+    if (rs_file_close(f) && result == RS_DONE) {
+        fprintf(stderr, "rdiff: Error closing output: %s\n", strerror(errno));
+        result = RS_IO_ERROR;
+    }
+    return result;
+}
+
 /** Generate signature from remaining command line arguments. */
 static rs_result rdiff_sig(poptContext opcon)
 {
@@ -223,7 +237,7 @@ static rs_result rdiff_sig(poptContext opcon)
         rs_sig_file(basis_file, sig_file, block_len, strong_len, sig_magic,
                     &stats);
 
-    rs_file_close(sig_file);
+    result = rdiff_close_output(sig_file, result);
     rs_file_close(basis_file);
     if (result != RS_DONE)
         return result;
@@ -266,7 +280,7 @@ static rs_result rdiff_delta(poptContext opcon)
 
     result = rs_delta_file(sumset, new_file, delta_file, &stats);
 
-    rs_file_close(delta_file);
+    result = rdiff_close_output(delta_file, result);
     rs_file_close(new_file);
     rs_file_close(sig_file);
 
@@ -302,7 +316,7 @@ static rs_result rdiff_patch(poptContext opcon)
 
     result = rs_patch_file(basis_file, delta_file, new_file, &stats);
 
-    rs_file_close(new_file);
+    result = rdiff_close_output(new_file, result);
     rs_file_close(delta_file);
     rs_file_close(basis_file);
 
-- 
2.43.0


From db5def8b356b8d25fdc3d76669f3a0a0f97ab5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:25 +0000
Subject: [PATCH 10/12] fix: never overwrite an existing file without --force

The check for an existing output file was an attempt to open it for reading,
so a file that exists but can't be read, or that is created between the check
and the open, was overwritten. Open the output exclusively.
---
 src/fileutil.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fileutil.c b/src/fileutil.c
index cd31910..cb3bee3 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -82,6 +82,9 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
 {
     FILE *f;
     int is_write;
+#if !_WIN32
+    char xmode[8];
+#endif
 
     is_write = mode[0] == 'w';
 
@@ -108,6 +111,13 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
         }
     }
 
+#if !_WIN32
+    /* The file may exist and not be readable, or be created just now. */
+    if (!force && is_write) {
+        snprintf(xmode, sizeof xmode, "%sx", mode);
+        mode = xmode;
+    }
+#endif
     if (!(f = fopen(filename, mode))) {
         rs_error("Error opening \"%s\" for %s: %s", filename,
                  is_write ? "write" : "read", strerror(errno));
-- 
2.43.0


From ffd86289f2dc5c4101f2150820c375a2e38ede70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 11/12] fix: consume a match found while output was blocked

A delta job that found a match while its output was blocked kept the data of
the match in its input. If the rest of the input was exactly another block,
the next call could do nothing and failed with RS_INTERNAL_ERROR.
---
 src/delta.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index 40dc33e..2a41cc5 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -134,6 +134,9 @@ static rs_result rs_delta_s_scan(rs_job_t *job)
     /* read the input into the scoop */
     if ((result = rs_getinput(job, block_len)) != RS_DONE)
         return result;
+    /* process the data of a match that was found when output was blocked */
+    if (job->basis_len && job->scan_pos)
+        result = rs_processmatch(job);
     /* while output is not blocked and there is a block of data */
     while ((result == RS_DONE) && ((job->scan_pos + block_len) < job->scan_len)) {
         /* check if this block matches */
-- 
2.43.0


From 46a6673fd230173869e77babe83b167df68df8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:49 +0000
Subject: [PATCH 12/12] fix: size the hash table without overflow for very many
 blocks

_hashtable_new() multiplied the number of blocks by 10 in an int, which
overflows above 214748364 blocks. The table then had 2 buckets, and
rs_delta found none of the basis' blocks.
---
 src/hashtable.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hashtable.c b/src/hashtable.c
index ff3f29c..f775d02 100644
--- a/src/hashtable.c
+++ b/src/hashtable.c
@@ -36,12 +36,18 @@
 hashtable_t *_hashtable_new(int size)
 {
     hashtable_t *t;
-    unsigned size2, bits2;
+    unsigned want, size2, bits2;
 
-    /* Adjust requested size to account for max load factor. */
-    size = 1 + size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
-    /* Use next power of 2 larger than the requested size and get mask bits. */
-    for (size2 = 2, bits2 = 1; (int)size2 < size; size2 <<= 1, bits2++) ;
+    /* Adjust requested size to account for max load factor. Divide before
+       multiplying so that this doesn't overflow for large sizes. */
+    want = 1 +
+        (unsigned)size / HASHTABLE_LOADFACTOR_NUM * HASHTABLE_LOADFACTOR_DEN +
+        (unsigned)size % HASHTABLE_LOADFACTOR_NUM * HASHTABLE_LOADFACTOR_DEN /
+        HASHTABLE_LOADFACTOR_NUM;
+    /* Use next power of 2 larger than the requested size that fits in an int
+       and get mask bits. */
+    for (size2 = 2, bits2 = 1; size2 < want && size2 < 1U << 30;
+         size2 <<= 1, bits2++) ;
     if (!(t = calloc(1, sizeof(hashtable_t)+ size2 * sizeof(unsigned))))
         return NULL;
     if (!(t->etable = calloc(size2, sizeof(void *)))) {
-- 
2.43.0

