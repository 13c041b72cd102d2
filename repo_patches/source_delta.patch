From 8156b59cfd213490199b482f15b26bf3882e8da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 01/39] fix: sliding backwards returns the last element first
 and never leaves the storage

---
 src/vita/container/common.c | 2 +-
 src/vita/container/plist.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index ea50633..376394a 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -129,7 +129,7 @@ void *vt_array_slide_back(struct VitaBaseArrayType *const vbat) {
     // check bounds
     if (vbat->slider_idx < vbat->len) {
         vbat->slider_idx++;
-        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx - 2) * vbat->elsize;
+        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx) * vbat->elsize;
     }
 
     // reset the slider
diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dfcbba5..dd99da8 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -318,7 +318,7 @@ void *vt_plist_slide_back(vt_plist_t *const p) {
     // check bounds
     if (p->slider_idx < p->len) {
         p->slider_idx++;
-        return p->ptr2[p->len - p->slider_idx - 2];
+        return p->ptr2[p->len - p->slider_idx];
     }
 
     // reset the slider
-- 
2.43.0


From ba23029af7da787e38c2f086a0643e08b8852396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 02/39] fix: vt_str_remove_last handles an absent substring and
 removes the last instance

---
 src/vita/container/str.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b7b66a7..f83f72b 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -571,9 +571,10 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
 
     // find the last instance of sep
     const size_t zLen = strlen(z);
+    if (!zLen) return VT_STATUS_OPERATION_SUCCESS;
     char *p = strstr(s->ptr, z);
     char *lastInstance = p;
-    while ((p = strstr(p + zLen, z)) != NULL) {
+    while (p != NULL && (p = strstr(p + zLen, z)) != NULL) {
         lastInstance = p;
     }
 
@@ -583,7 +584,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     }
 
     // find the position of last substring instance
-    const ptrdiff_t last_instance_pos = (((char*)(s->ptr) + s->len * s->elsize) - lastInstance);
+    const ptrdiff_t last_instance_pos = (lastInstance - (char*)(s->ptr));
 
     // remove the last instance
     vt_str_remove(s, last_instance_pos, zLen);
-- 
2.43.0


From 70d101228846904936a8f55d4cd4622d1a024e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 03/39] fix: vt_str_replace_last handles an absent substring

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index f83f72b..583e85a 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -720,7 +720,7 @@ void vt_str_replace_last(vt_str_t *const s, const char *const sub, const char *c
     // find the last instance of sep
     const char *ptr = strstr(s->ptr, sub);
     const char *lastInstance = ptr;
-    while ((ptr = strstr(ptr + subLen, sub))) {
+    while (ptr != NULL && (ptr = strstr(ptr + subLen, sub))) {
         lastInstance = ptr;
     }
 
-- 
2.43.0


From 2ed931773275cf605895387b9c8ef13254f133cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 04/39] fix: stripping an empty or fully stripped string stays
 inside the string and terminates

---
 src/vita/container/str.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 583e85a..f787e2a 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -789,7 +789,7 @@ void vt_str_strip(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr)) {
+    while (*len > 0 && isspace(*curr)) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -823,7 +823,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (*len > 0 && (isspace(*curr) || ispunct(*curr))) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -849,6 +849,9 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     const char *p = s->ptr;
     const char *curr = p + offset;
 
+    // nothing to strip
+    if (!cLen) return;
+
     // strip leading whitespace and control symbols
     while (!stop) {
         for (size_t i = 0; i < cLen; i++) {
@@ -874,7 +877,7 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     curr = p + (*len + offset - 1);
     while (!stop) {
         for (size_t i = 0; i < cLen; i++) {
-            if (*curr == c[i]) {
+            if (*len > 0 && *curr == c[i]) {
                 (*len)--;
                 curr = p + (*len + offset - 1);
 
-- 
2.43.0


From c4f5841bf83c867cce77855821bf2d007be07a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 05/39] fix: removing or counting an empty substring terminates

---
 src/vita/container/str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index f787e2a..cf2f5d1 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -598,6 +598,9 @@ enum VitaStatus vt_str_remove_all(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    // nothing to remove
+    if (*z == '\0') return VT_STATUS_OPERATION_SUCCESS;
+
     // remove all instances of substring
     while (vt_str_remove_first(s, z) == VT_STATUS_OPERATION_SUCCESS);
 
@@ -917,6 +920,7 @@ size_t vt_str_can_find(const vt_str_t *const s, const char *sub) {
     // substring (needle) cannot be longer than z (haystack)
     const size_t subLen = strlen(sub);
     VT_ENFORCE(subLen <= vt_str_len(s), "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    if (!subLen) return 0;
 
     size_t count = 0;
     const char *p = vt_str_z(s);
-- 
2.43.0


From 51b97f0b53614b7450e54feed8b151ce813c32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 06/39] fix: vt_str_split stops at the end of the string when
 nothing follows the last separator

---
 src/vita/container/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index cf2f5d1..a8ed3e9 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -972,7 +972,9 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
 
         // count copy length
         const size_t copyLen = strlen(head) - (current == NULL ? 0 : strlen(current));
-        if (copyLen == 0) { // if head == current, move head by sepLen (if sep is in the begining)
+        if (copyLen == 0 && current == NULL) { // nothing is left after the last sep
+            break;
+        } else if (copyLen == 0) { // if head == current, move head by sepLen (if sep is in the begining)
             head += sepLen;
             continue;
         } else {
-- 
2.43.0


From 731cea9588c11ea788c2e0cea36768e8059da29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 07/39] fix: vt_str_insert_n rejects a position outside the
 string

---
 src/vita/container/str.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index a8ed3e9..0f31979 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -452,6 +452,13 @@ void vt_str_insert_n(vt_str_t *const s, const char *z, const size_t at, const si
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(
+        at <= s->len,
+        "%s: Inserts at %zu, but vt_str_t length is %zu!\n", 
+        vt_status_to_str(VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS), 
+        at, 
+        s->len
+    );
 
     // check if new memory needs to be allocated
     const size_t hasSpace = vt_str_has_space(s);
-- 
2.43.0


From 30cd2ee005300538f7b4d0c41d803d923554a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 08/39] fix: formatted append/insert release their temporaries
 and end the argument list on failure

---
 src/vita/container/str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 0f31979..72defdd 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -332,6 +332,7 @@ enum VitaStatus vt_str_appendf(vt_str_t *const s, const char *const fmt, ...) {
     va_start(args, fmt); 
     if (vt_str_vfmt_append(s, fmt, args) == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        va_end(args);
         return VT_STATUS_OPERATION_FAILURE;
     }
     va_end(args);
@@ -414,6 +415,7 @@ enum VitaStatus vt_str_insertf(vt_str_t *const s, const size_t at, const char *c
         // check for error
         if (len < 0) {
             VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+            va_end(args);
             return VT_STATUS_OPERATION_FAILURE;
         }
 
@@ -431,6 +433,8 @@ enum VitaStatus vt_str_insertf(vt_str_t *const s, const size_t at, const char *c
             vt_str_t *tmp_str = vt_str_create_len(len, s->alloctr);
             if (vt_str_vfmt_set(tmp_str, fmt, args) == NULL) {
                 VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+                vt_str_destroy(tmp_str);
+                va_end(args);
                 return VT_STATUS_OPERATION_FAILURE;
             }
 
-- 
2.43.0


From e761e6f59ac82a2ec6991a0bcb9eb6133676eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 09/39] fix: vt_str_vfmt_set reports a formatting failure and
 does not count the terminator

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 72defdd..eb5a365 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -1413,7 +1413,7 @@ static vt_str_t *vt_str_vfmt_set(vt_str_t *s, const char *const fmt, va_list arg
     va_list args2; va_copy(args2, args); 
     {
         // check format length
-        const int64_t len = vsnprintf(NULL, (size_t)0, fmt, args) + 1;
+        const int64_t len = vsnprintf(NULL, (size_t)0, fmt, args);
         if (len < 0) {
             VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
             va_end(args2);
-- 
2.43.0


From afcf34ddddf2ce2f9dcda39d26976a9a9fa1585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 10/39] fix: vt_str_split_between handles overlapping, adjacent
 and reversed delimiters without leaking

---
 src/vita/container/str.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index eb5a365..003e2b7 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -1027,24 +1027,27 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         return NULL;
     }
 
+    // check that the right substring lies behind the left one
+    const ptrdiff_t sub_len = rsub - lsub - (ptrdiff_t)strlen(zl);
+    if (sub_len < 0) {
+        return NULL;
+    }
+
     // prepare
     vt_str_t *st = (s == NULL) 
         ? vt_str_create_capacity(VT_ARRAY_DEFAULT_INIT_ELEMENTS, NULL)
         : s;
     vt_str_clear(st);
 
-    // check if lsub < rsub
-    if (lsub < rsub) {
-        ptrdiff_t sub_len = rsub - lsub - strlen(zl);
+    // copy the part in between (there may be none)
+    if (sub_len > 0) {
         vt_str_resize(st, sub_len);
 
         // append sub
         vt_str_append_n(st, rsub - sub_len, sub_len);
-
-        return st;
     }
 
-    return NULL;
+    return st;
 }
 
 vt_str_t *vt_str_join(vt_str_t *const s, const char *const sep, const vt_plist_t *const p) {
-- 
2.43.0


From 32256de93d8d281280349e2f5ad21602acabb355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 11/39] fix: vt_str_insert_after appends when the substring
 ends the string

---
 src/vita/container/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 003e2b7..2cf673a 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -514,7 +514,9 @@ void vt_str_insert_after(vt_str_t *const s, const char *const sub, const char *c
     }
 
     // insert z
-    vt_str_insert(s, z, idx + strlen(sub));
+    const size_t at = idx + strlen(sub);
+    if (at < vt_str_len(s)) vt_str_insert(s, z, at);
+    else vt_str_append(s, z);
 }
 
 void vt_str_remove(vt_str_t *const s, const size_t from, size_t n) {
-- 
2.43.0


From 94afc90e725261d7b01858760ff7d74851cdbde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:48 +0000
Subject: [PATCH 12/39] fix: a view reports no free space, so growing it is
 refused instead of overrunning the viewed storage

---
 src/vita/container/common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index 376394a..d1cdcdd 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -54,7 +54,8 @@ size_t vt_array_has_space(const struct VitaBaseArrayType *const vbat) {
     VT_DEBUG_ASSERT(vbat != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(vbat->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
-    return (vbat->capacity - vbat->len);
+    // a view owns no storage, so it has no space to grow into
+    return vbat->is_view ? 0 : (vbat->capacity - vbat->len);
 }
 
 size_t vt_array_elsize(const struct VitaBaseArrayType *const vbat) {
-- 
2.43.0


From 56673004b79ab593d6cf69e3db0b802f6c004cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 13/39] fix: vt_log falls back to stderr when its file cannot
 be opened, so fatal levels still exit and the argument list is ended

---
 src/vita/util/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/log.c b/src/vita/util/log.c
index 824f58c..f2d50b3 100644
--- a/src/vita/util/log.c
+++ b/src/vita/util/log.c
@@ -47,8 +47,8 @@ void vt_log(const char *const zfilename, enum VitaLogLevel log_level, const bool
             // if `NULL` log to `stderr`, otherwise to a file
             FILE *fp = (logger_filename[0] == '\0') ? stderr : fopen(logger_filename, "a");
             if (fp == NULL) {
-                VT_DEBUG_PRINTF("%s:%i: Failed to open a file <%s>!\n", file, line, logger_filename);
-                return;
+                VT_DEBUG_PRINTF("%s:%zu: Failed to open a file <%s>!\n", file, line, logger_filename);
+                fp = stderr; // fall back to `stderr`, so the message is not lost
             }
 
             // logging data
-- 
2.43.0


From 30b2bde89cbea83839bbe9103d7ae5a5b24556d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 14/39] fix: debug output never closes stderr when its file
 cannot be opened

---
 src/vita/util/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/debug.c b/src/vita/util/debug.c
index 2941e71..3f6232c 100644
--- a/src/vita/util/debug.c
+++ b/src/vita/util/debug.c
@@ -34,7 +34,7 @@ void vt_debug_assert(
                 fprintf(fp, "\n");
 
                 // close the file, if needed
-                if (vt_debug_output_filename != NULL) { fclose(fp); }
+                if (fp != stderr) { fclose(fp); }
             }
         }
         va_end(args);
@@ -65,7 +65,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
             vfprintf(fp, zfmt, args);
 
             // close the file, if needed
-            if (vt_debug_output_filename != NULL) { fclose(fp); }
+            if (fp != stderr) { fclose(fp); }
         }
     }
     va_end(args);
-- 
2.43.0


From 3168bc483ec4291f8d50b04ba528ec4744146e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 15/39] fix: file writers report failed writes and failed
 closes

---
 src/vita/system/fileio.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index de6d17f..0ec1bca 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -210,13 +210,15 @@ bool vt_file_writef(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = (vfprintf(fp, fmt, args) >= 0);
     va_end(args);
     
     // close file
-    fclose(fp); 
+    if (fclose(fp) != 0) {
+        status = false;
+    }
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
@@ -234,16 +236,20 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = (vfprintf(fp, fmt, args) >= 0);
     va_end(args);
 
     // add a new line
-    fprintf(fp, "\n");
+    if (fprintf(fp, "\n") < 0) {
+        status = false;
+    }
     
     // close file
-    fclose(fp); 
+    if (fclose(fp) != 0) {
+        status = false;
+    }
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefc(const char *const filename, const bool use_binary_mode, const bool use_append_mode, const bool add_ln, const char *const fmt, ...) {
@@ -261,18 +267,20 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = (vfprintf(fp, fmt, args) >= 0);
     va_end(args);
 
     // add a new line
-    if (add_ln) {
-        fprintf(fp, "\n");
+    if (add_ln && fprintf(fp, "\n") < 0) {
+        status = false;
     }
     
     // close file
-    fclose(fp); 
+    if (fclose(fp) != 0) {
+        status = false;
+    }
 
-    return true;
+    return status;
 }
 
 
-- 
2.43.0


From bd483d569ee648aa58bde792cf5c1153414f200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:59 +0000
Subject: [PATCH 16/39] fix: assigning a C string option that already has a
 value reallocates enough storage and terminates it

---
 src/vita/util/argopt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/util/argopt.c b/src/vita/util/argopt.c
index 6a8657d..ca62345 100644
--- a/src/vita/util/argopt.c
+++ b/src/vita/util/argopt.c
@@ -225,15 +225,15 @@ static void vt_argopt_assign_value(vt_argopt_t *const opt, const char *const val
                     // check we need to reallocate
                     if (len > zLen) {
                         char *ztmp = alloctr 
-                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len - zLen)
-                            : VT_REALLOC(*zvalue, len - zLen);
+                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len + 1)
+                            : VT_REALLOC(*zvalue, len + 1);
 
                         // save
                         *zvalue = ztmp;
                     }
 
-                    // copy values
-                    memcpy(*zvalue, value, len);
+                    // copy values (including the '\0' terminator)
+                    memcpy(*zvalue, value, len + 1);
                 }
             }
             break;
-- 
2.43.0


From c6c36a4441b436a62633d1e4fc72907e2c25b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:08 +0000
Subject: [PATCH 17/39] fix: a socket that fails to start up is closed

---
 src/vita/network/sockets.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index a203c27..199ac57 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -44,6 +44,7 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     const int32_t opt = 1;
     if (setsockopt(sock_fd, SOL_SOCKET, SO_REUSEADDR, (char*)&opt, sizeof(int)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to set socket options!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_OPTIONS;
     }
 
@@ -56,12 +57,14 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     // forcefully bind the server socket address
     if (bind(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to bind the socket!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_BIND;
     }
 
     // listen
     if (type == VT_SOCKET_TYPE_TCP && listen(sock_fd , backlog) < 0) {
         VT_DEBUG_PRINTF("%s: Error listening for connections!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_LISTEN;
     }
 
@@ -85,6 +88,7 @@ vt_socket_t vt_socket_startup_client(const enum VitaSocketType type, const struc
     // connect to remote server
     if (connect(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to connect to server!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_CONNECT;
     }
 
-- 
2.43.0


From 71a2c279a0f4e2a5e163a6b42deb949a9512f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:56 +0000
Subject: [PATCH 18/39] fix: vt_path_get_cwd reports failure and returns
 storage owned by the given allocator

---
 src/vita/system/path.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ad4ff4f..0423a54 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -25,7 +25,18 @@ vt_str_t *vt_path_build_n(vt_str_t *const s, const size_t n, ...) {
 }
 
 vt_str_t *vt_path_get_cwd(struct VitaBaseAllocatorType *alloctr) {
-    return vt_str_take_ownership(getcwd(NULL, 0), alloctr);
+    // get current working directory
+    char *const z = getcwd(NULL, 0);
+    if (z == NULL) {
+        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        return NULL;
+    }
+
+    // copy it into storage obtained from the allocator
+    vt_str_t *s = vt_str_create(z, alloctr);
+    free(z);
+
+    return s;
 }
 
 bool vt_path_exists(const char *const z) {
-- 
2.43.0


From 126e2a5d79df546766f196c2aeff166b4af6723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:56 +0000
Subject: [PATCH 19/39] fix: vt_path_get_this_exe_location terminates the path

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 0423a54..bafad6c 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -533,6 +533,7 @@ vt_str_t *vt_path_get_this_exe_location(struct VitaBaseAllocatorType *alloctr) {
         return NULL;
     }
     spath->len = pathLen;
+    ((char*)spath->ptr)[pathLen] = '\0';
 
     return spath;
 }
-- 
2.43.0


From 6441f2e9a8e55d13cf7cf4940274dfbb33f26f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:56 +0000
Subject: [PATCH 20/39] fix: vt_path_pop accepts an empty path

---
 src/vita/system/path.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index bafad6c..288a2bf 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -547,6 +547,9 @@ void vt_path_pop(char *const z) {
     
     // check if path ends with path separator
     size_t len = vt_str_len(&s);
+    if (!len) {
+        return;
+    }
     if (z[len-1] == VT_PATH_SEPARATOR[0]) {
         z[len-1] = '\0';
         return;
-- 
2.43.0


From 2bd293d014a175d8435548c00892fd6e7aaf966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:56 +0000
Subject: [PATCH 21/39] fix: vt_path_mkdir_parents reports a directory it could
 not create

---
 src/vita/system/path.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 288a2bf..fb4b0f5 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -351,7 +351,10 @@ bool vt_path_mkdir_parents(const char *const z) {
         vt_str_append(sfull, VT_PATH_SEPARATOR);
         
         // make that directory
-        vt_path_mkdir(vt_str_z(sfull));
+        if (!vt_path_mkdir(vt_str_z(sfull))) {
+            status = false;
+            break;
+        }
     }
 
 vt_label_path_mkdir_parents__:
-- 
2.43.0


From d4a8f42168378c4dfba166d5a4471c20f105e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:56 +0000
Subject: [PATCH 22/39] fix: vt_path_rmdir_recurse reports that the directory
 itself could not be removed

---
 src/vita/system/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index fb4b0f5..f485902 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -430,7 +430,7 @@ bool vt_path_rmdir_recurse(const char *const z) {
             goto vt_path_rmdir_recurse_cleanup__;
         }  
     }
-    vt_path_rmdir(z); // remove the folder when done with its contents
+    status = vt_path_rmdir(z); // remove the folder when done with its contents
 
 vt_path_rmdir_recurse_cleanup__:
     // free all strings in dir_list
-- 
2.43.0


From 443a36657c60b5a190221f78add9dc51409d19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:21 +0000
Subject: [PATCH 23/39] fix: listing and removing a directory tree does not
 follow symbolic links out of it

---
 src/vita/system/path.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index f485902..0e844e7 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -1,5 +1,7 @@
 #include "vita/system/path.h"
 
+static bool vt_path_is_link(const char *const z);
+
 vt_str_t *vt_path_build(vt_str_t *const s, const vt_plist_t *const p) {
     return vt_str_join(s, VT_PATH_SEPARATOR, p);
 }
@@ -189,7 +191,7 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, dirtree->d_name);
 
         // check if current path is a directory; if false, then break
-        if (vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
+        if (!vt_path_is_link(vt_str_z(st)) && vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
             break;
         }
 
@@ -423,7 +425,9 @@ bool vt_path_rmdir_recurse(const char *const z) {
     vt_str_t *path = NULL;
     while ((path = vt_plist_slide_front(dir_list)) != NULL) {
         // remove file/directory
-        status = vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
+        status = vt_path_is_link(vt_str_z(path)) 
+            ? (remove(vt_str_z(path)) == 0) 
+            : vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
 
         // check status
         if (!status) {
@@ -597,5 +601,14 @@ void vt_path_validate(char *const z) {
     }
 }
 
+/* ------------------------ PRIVATE ------------------------ */
 
-
+static bool vt_path_is_link(const char *const z) {
+    #if defined(_WIN32) || defined(_WIN64)
+        (void)z;
+        return false;
+    #else
+        struct stat info;
+        return (lstat(z, &info) == 0 && S_ISLNK(info.st_mode));
+    #endif
+}
-- 
2.43.0


From a9fe3e516f20d94d6a4c3b0585fcf397269462b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:21 +0000
Subject: [PATCH 24/39] fix: vt_path_expand_tilda expands a lone tilda

---
 src/vita/system/path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 0e844e7..6fdda04 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -510,7 +510,11 @@ vt_str_t *vt_path_expand_tilda(const char *const z, struct VitaBaseAllocatorType
 
     // expand tilda
     vt_str_remove(s_tilda, (size_t)tilda_pos, 1);           // remove tilda
-    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    if (!vt_str_len(s_tilda)) {
+        vt_str_append(s_tilda, z_homepath);
+    } else {
+        vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    }
 
     return s_tilda;
 }
-- 
2.43.0


From 470c753f3731322d2a883fc2f039274e512f6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:50 +0000
Subject: [PATCH 25/39] fix: timestamp validation checks separators and stops
 at the end of the text

---
 src/vita/time/datetime.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 56198b8..cfdf23e 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -394,7 +394,9 @@ static bool vt_datetime_is_valid_fmt(const char *const timebuf, const char *cons
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     for (size_t i = 0; i < len; i++) {
-        if (fmt[i] != 'T' && isalpha(fmt[i]) && !isdigit(timebuf[i])) {
+        // digits in place of letters, everything else (separators and '\0') must match
+        const bool expect_digit = (fmt[i] != 'T' && isalpha(fmt[i]));
+        if (expect_digit ? !isdigit((unsigned char)timebuf[i]) : timebuf[i] != fmt[i]) {
             return false;
         }
     }
-- 
2.43.0


From b787d30ea3b806fc92cb02d74e435fa3f846abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:50 +0000
Subject: [PATCH 26/39] fix: the diagnostics for an invalid datetime pass the
 argument their format expects

---
 src/vita/time/datetime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index cfdf23e..bc1ccbf 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -153,7 +153,7 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
     time_t ret = mktime(&stm);
     if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
 
@@ -164,7 +164,7 @@ int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
     time_t ret = mktime(&stm);
     if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
 
-- 
2.43.0


From f25f86048864bf5143e81e002f82d64b594fbc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 27/39] fix: gcd and lcm accept zero

---
 src/vita/math/math.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 9d04a21..df90499 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -102,16 +102,17 @@ int64_t vt_math_gcd(const int64_t a, const int64_t b) {
     high_val = a >= b ? a : b;
 
     // find gcd
-    do {
+    while (low_val != 0) {
         rem = high_val % low_val;
         high_val = low_val;
         low_val = rem;
-    } while (rem != 0);
+    }
 
     return high_val;
 }
 
 int64_t vt_math_lcm(int64_t a, int64_t b) {
-    return a / vt_math_gcd(a, b) * b;
+    const int64_t gcd = vt_math_gcd(a, b);
+    return gcd == 0 ? 0 : a / gcd * b;
 }
 
-- 
2.43.0


From 6ce3e7fa968008bebf5fcf65a6d30dfb3378a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 28/39] fix: allocator diagnostics use the format of their
 size_t arguments

---
 src/vita/allocator/mallocator.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vita/allocator/mallocator.c b/src/vita/allocator/mallocator.c
index 2ad75f7..81d41dc 100644
--- a/src/vita/allocator/mallocator.c
+++ b/src/vita/allocator/mallocator.c
@@ -74,7 +74,7 @@ void *vt_mallocator_alloc(vt_mallocator_t *const alloctr, const size_t bytes, co
     alloctr->stats.count_bytes_allocated += bytes;
 
     // debug info
-    VT_DEBUG_PRINTF("%s:%s:%d: %zu bytes allocated\n", file, func, line, bytes);
+    VT_DEBUG_PRINTF("%s:%s:%zu: %zu bytes allocated\n", file, func, line, bytes);
 
     return obj.ptr;
 }
@@ -105,7 +105,7 @@ void *vt_mallocator_realloc(vt_mallocator_t *const alloctr, void *ptr, const siz
     alloctr->stats.count_bytes_freed -= bytes_diff < 0 ? bytes_diff : 0;
 
     // debug info
-    VT_DEBUG_PRINTF("%s:%s:%d: %zu bytes reallocated (old size: %d)\n", file, func, line, bytes, bytes_old);
+    VT_DEBUG_PRINTF("%s:%s:%zu: %zu bytes reallocated (old size: %zu)\n", file, func, line, bytes, bytes_old);
 
     return obj.ptr;
 }
@@ -125,7 +125,7 @@ void vt_mallocator_free(vt_mallocator_t *const alloctr, void *ptr, const char *c
         alloctr->stats.count_bytes_allocated -= bytes;
 
         // debug info
-        VT_DEBUG_PRINTF("%s:%s:%d: %zu bytes freed (left: %zu)\n", file, func, line, bytes, alloctr->stats.count_bytes_allocated);
+        VT_DEBUG_PRINTF("%s:%s:%zu: %zu bytes freed (left: %zu)\n", file, func, line, bytes, alloctr->stats.count_bytes_allocated);
         (void)file;
         (void)func;
         (void)line;
-- 
2.43.0


From f4c0a7cbc7a6983e4ec217ad86aa73e73a2374fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 29/39] fix: vt_datetime_from_secs refuses a time that cannot
 be represented

---
 src/vita/time/datetime.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index bc1ccbf..0da8309 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -232,8 +232,9 @@ time_t vt_datetime_to_secs(const struct VitaDateTime vdt) {
 }
 
 struct VitaDateTime vt_datetime_from_secs(const time_t secs) {
-    const struct tm stm = *localtime(&secs);
-    return vt_datetime_tm_to_vdt(stm);
+    const struct tm *const stm = localtime(&secs);
+    VT_ENFORCE(stm != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    return vt_datetime_tm_to_vdt(*stm);
 }
 
 struct VitaDateTime vt_datetime_op(const struct VitaDateTime vdt, const struct VitaDateTime delta){
-- 
2.43.0


From d82abe403042900aaf396a3ca3af652c31b0ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:02 +0000
Subject: [PATCH 30/39] fix: receiving with a NULL address is refused instead
 of dereferenced

---
 src/vita/network/sockets.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index 199ac57..1c19778 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -174,6 +174,9 @@ int32_t vt_socket_receive(const vt_socket_t sock_fd, char *const data_buf, const
 }
 
 int32_t vt_socket_receive_from(const vt_socket_t sock_fd, struct VitaSocketAddress *const address, char *data_buf, const size_t data_len) {
+    // check for invalid input
+    VT_DEBUG_ASSERT(address != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+
     // setup source socket address of incoming packets
     struct sockaddr_in src_addr = {0};
     socklen_t addrlen = sizeof(src_addr);
-- 
2.43.0


From d50cd3aadedbce1ed55b2a7f9b13d415c6d8504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:54 +0000
Subject: [PATCH 31/39] fix: reading an empty file aborts instead of returning
 an empty string

---
 src/vita/system/fileio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index 0ec1bca..1a30d38 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -25,8 +25,8 @@ vt_str_t *vt_file_read(const char *const filename, struct VitaBaseAllocatorType
         return NULL;
     }
 
-    // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    // create data buffer (an empty file yields an empty string)
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
@@ -73,8 +73,8 @@ vt_str_t *vt_file_readb(const char *const filename, struct VitaBaseAllocatorType
         return NULL;
     }
 
-    // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    // create data buffer (an empty file yields an empty string)
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
-- 
2.43.0


From 8b5fb5209e8313a4a40a04b3bc86369192cb912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:54 +0000
Subject: [PATCH 32/39] fix: expanding a lone tilde aborts when HOME is set but
 empty

---
 src/vita/system/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 6fdda04..4eb9036 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -503,7 +503,7 @@ vt_str_t *vt_path_expand_tilda(const char *const z, struct VitaBaseAllocatorType
     #endif
 
     // check return value from getenv
-    if (z_homepath == NULL) {
+    if (z_homepath == NULL || z_homepath[0] == '\0') {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return s_tilda;
     }
-- 
2.43.0


From 44a8fe066f62d132f013bb99acb4535c63a74a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:07 +0000
Subject: [PATCH 33/39] fix: vt_path_basename of a path whose only separator
 comes first or last

---
 src/vita/system/path.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 4eb9036..938c428 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -247,11 +247,11 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
         : s;
 
     // find the basename
-    const char *ptr = NULL;
+    const char *ptr = z;
     const size_t zLen = strlen(z);
     for (size_t i = zLen - 1; i > 0; i--) {
-        if (z[i] == VT_PATH_SEPARATOR[0] && i != zLen - 1) {
-            ptr = &z[i+1];
+        if (z[i-1] == VT_PATH_SEPARATOR[0]) {
+            ptr = &z[i];
             break;
         }
     }
@@ -262,8 +262,8 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
         vt_str_reserve(st, zLen - sLen);
     }
 
-    // save the basename
-    if (ptr) {
+    // save the basename (`z` may already be the text of `st`)
+    if (ptr != vt_str_z(st)) {
         vt_str_clear(st);
         vt_str_append(st, ptr);
     }
-- 
2.43.0


From 6916238a1a9246684ebf6cee64030bc4afe044d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:07 +0000
Subject: [PATCH 34/39] fix: vt_path_mkdir_parents of a single directory

---
 src/vita/system/path.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 938c428..de91f45 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -335,10 +335,8 @@ bool vt_path_mkdir_parents(const char *const z) {
 
     // split string into directories
     dir_list = vt_str_split(NULL, s, VT_PATH_SEPARATOR);
-    if (dir_list == NULL) {
-        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
-
-        status = false;
+    if (dir_list == NULL) { // a single directory
+        status = vt_path_mkdir(z);
         goto vt_label_path_mkdir_parents__;
     }
 
-- 
2.43.0


From 7e20a7a3ebb6ce93e733a6538d1004297a8b90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:00 +0000
Subject: [PATCH 35/39] fix: century years that are not divisible by 400 are
 not leap years

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 0da8309..dc34bd4 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -199,7 +199,7 @@ int16_t vt_datetime_find_days_in_year(const struct VitaDateTime vdt) {
 
 bool vt_datetime_is_leap_year(const struct VitaDateTime vdt) {
     const int16_t year = vdt.year < 0 ? VT_DATETIME_MIN_YEAR_RANGE : vdt.year;
-    return (year % 4 == 0);
+    return (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
 }
 
 bool vt_datetime_is_valid_text(const char *const timebuf) {
-- 
2.43.0


From 6c99ea4448fa62c9d1821b58cc22cca5767f9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:00 +0000
Subject: [PATCH 36/39] fix: an invalid year stands for 1900, not 3800

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index dc34bd4..699a4cc 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -326,7 +326,7 @@ static struct VitaDateTime vt_datetime_tm_to_vdt(const struct tm stm) {
 */
 static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
     return (struct tm) {
-        .tm_year = vdt.year ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : VT_DATETIME_MIN_YEAR_RANGE,
+        .tm_year = vdt.year > 0 ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : 0,
         .tm_mon = vdt.month - 1,
         .tm_mday = vdt.month_day,
         .tm_hour = vdt.hour, 
-- 
2.43.0


From 0537b43c1818deb790c6f05c4679b2bc65d3b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:00 +0000
Subject: [PATCH 37/39] fix: day of week and day of year of dates before 1970

---
 src/vita/time/datetime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 699a4cc..f2c0581 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -152,7 +152,7 @@ struct VitaDateTime vt_datetime_from_text_iso_ext(const char *timebuf) {
 int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
     time_t ret = mktime(&stm);
-    if (ret < 0) {
+    if (ret == -1) {
         VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
@@ -163,7 +163,7 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
 int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
     time_t ret = mktime(&stm);
-    if (ret < 0) {
+    if (ret == -1) {
         VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
-- 
2.43.0


From 6ce89e7b7df17e882e2ebca7fdec06e053b187fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:05 +0000
Subject: [PATCH 38/39] fix: vt_math_is_close uses the machine epsilon for a
 negative tolerance, as documented

---
 src/vita/math/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index df90499..d08671c 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -93,7 +93,7 @@ float vt_math_random_f32_normal(const float mu, const float std) {
 }
 
 bool vt_math_is_close(const float lhs, const float rhs, const float rtol) {
-    return fabs(lhs - rhs) < fabs(rtol);
+    return fabs(lhs - rhs) < (rtol < 0 ? __FLT_EPSILON__ : rtol);
 }
 
 int64_t vt_math_gcd(const int64_t a, const int64_t b) {
-- 
2.43.0


From 2e1345ee03368445b75fae53d9463eeddc73db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:34 +0000
Subject: [PATCH 39/39] fix: searching a vector of reals compares values, not
 their padding bytes

---
 src/vita/container/vec.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index feff9a0..ad12294 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -398,9 +398,23 @@ VT_INSTANTIATE_VEC_CAN_FIND(int64_t, i64)
 VT_INSTANTIATE_VEC_CAN_FIND(uint64_t, u64)
 VT_INSTANTIATE_VEC_CAN_FIND(float, f)
 VT_INSTANTIATE_VEC_CAN_FIND(double, d)
-VT_INSTANTIATE_VEC_CAN_FIND(real, r)
 #undef VT_INSTANTIATE_VEC_CAN_FIND
 
+int64_t vt_vec_can_findr(const vt_vec_t *const v, const real val) {
+    // check for invalid input
+    VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
+
+    // compare values: `real` may have padding bytes, which differ between equal numbers
+    for (size_t i = 0; i < v->len; i++) {
+        if (((const real*)v->ptr)[i] == val) {
+            return i;
+        }
+    }
+
+    return -1;
+}
+
 void *vt_vec_slide_front(vt_vec_t *const v) {
     // check for invalid input
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-- 
2.43.0

