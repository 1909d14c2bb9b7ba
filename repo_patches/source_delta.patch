From b6f7b08e744576c0a0ffb8a2dde792e7bc082075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 001/146] fix: u_rb_fast_read on a buffer without no-copy reads
 called a NULL method

---
 srcs/toolbox/rb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 7b42a8f..281ce87 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -278,7 +278,7 @@ ssize_t u_rb_read (u_rb_t *rb, void *b, size_t b_sz)
 void *u_rb_fast_read (u_rb_t *rb, size_t *pb_sz)
 {
     dbg_return_if (rb == NULL, NULL);
-    dbg_return_if (rb->cb_write == NULL, NULL);
+    dbg_return_if (rb->cb_fast_read == NULL, NULL);
 
     return rb->cb_fast_read(rb, pb_sz);
 }
-- 
2.43.0


From 47787f5e47219d83a37f3d381cf4356e4a4a5d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 002/146] fix: ring buffer read crossing the end of the buffer
 returned wrong bytes

---
 srcs/toolbox/rb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 281ce87..5d4478e 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -496,7 +496,9 @@ static ssize_t read_wrapped (u_rb_t *rb, void *b, size_t b_sz)
     /* if there is nothing ready to be read go out immediately */
     nop_goto_if (!(to_be_read = U_MIN(u_rb_ready(rb), b_sz)), end);
 
-    if (!is_wrapped(rb) || (rspace = (rb->sz - rb->rd_off)) <= to_be_read)
+    /* No reassembly needed if the requested data does not cross the end of 
+     * the buffer (when rd_off == wr_off the buffer is full). */
+    if ((rspace = (rb->sz - rb->rd_off)) >= to_be_read)
     {
         memcpy(b, read_addr(rb), to_be_read);
         read_incr_wrapped(rb, to_be_read);
-- 
2.43.0


From 14b8d6391d567faf076df4c9bd68b03ffed9c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 003/146] fix: base64 decoder indexed its table with negative
 characters

---
 srcs/toolbox/b64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index fb4246f..2a923b9 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -177,12 +177,12 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
 static inline int is_base64 (int c) 
 {
-    return D[c];
+    return (D[(unsigned char) c] != 0);
 }
 
 static inline size_t val (int c) 
 {
-    return (D[c] - 1);
+    return (D[(unsigned char) c] - 1);
 }
 
 static inline void chunk_encode (uint8_t in[3], char out[4], int len)
-- 
2.43.0


From 7eec3a4ec9ab5f6d428ecdbfcb873b2b7bea17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 004/146] fix: base64 decoder wrote up to two bytes past the
 output buffer

---
 srcs/toolbox/b64.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index 2a923b9..6e4ea04 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -36,7 +36,7 @@ static const size_t D[256] = {
 static inline size_t val (int c);
 static inline int is_base64 (int c);
 static inline void chunk_encode (uint8_t in[3], char out[4], int len);
-static inline void chunk_decode (char in[4], uint8_t out[3]);
+static inline void chunk_decode (char in[4], uint8_t *out, size_t len);
 
 /**
     \defgroup b64 Base64 codec
@@ -157,7 +157,7 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
             if (tot_sz >= nlen)
             {
-                chunk_decode(buf, pout);
+                chunk_decode(buf, pout, nlen);
                 tot_sz -= nlen; /* Take care of subtracting pad bytes. */
                 pout += nlen;
             } 
@@ -193,10 +193,12 @@ static inline void chunk_encode (uint8_t in[3], char out[4], int len)
     out[3] = len > 2 ? E[in[2] & 0x3f] : '=';
 }
 
-static inline void chunk_decode (char in[4], uint8_t out[3])
+static inline void chunk_decode (char in[4], uint8_t *out, size_t len)
 {   
     out[0] = (val(in[0]) << 2) | (val(in[1]) >> 4);
-    out[1] = ((val(in[1]) & 0x0f) << 4) | (val(in[2]) >> 2);
-    out[2] = ((val(in[2]) & 0x03) << 6) | val(in[3]);
+    if (len > 1)
+        out[1] = ((val(in[1]) & 0x0f) << 4) | (val(in[2]) >> 2);
+    if (len > 2)
+        out[2] = ((val(in[2]) & 0x03) << 6) | val(in[3]);
 }
 
-- 
2.43.0


From bf2912291501a395e2007e309e1b4a48e745c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 005/146] fix: base64 decoder accepted truncated text and
 misplaced padding

---
 srcs/toolbox/b64.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index 6e4ea04..d016bf0 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -124,7 +124,7 @@ int u_b64_encode (const uint8_t *in, size_t in_sz, char *out, size_t out_sz)
 int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 {
     char buf[4];
-    size_t i, len, pad, tot_sz = *out_sz;
+    size_t i, len, pad, tot_sz;
     uint8_t *pout;
 
     dbg_return_if (in == NULL, ~0);
@@ -132,6 +132,8 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
     dbg_return_if (out == NULL, ~0);
     dbg_return_if (out_sz == NULL, ~0);
 
+    tot_sz = *out_sz;
+
     for (pout = out; in_sz; )
     {
         for (pad = 0, len = 0, i = 0; i < 4; ++i)
@@ -141,8 +143,14 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
                 buf[i] = *in++;
 
                 if (buf[i] == '=')
+                {
+                    /* Padding can take the last two places only. */
+                    if (i < 2)
+                        return ~0;
+
                     ++pad;
-                else if (!is_base64(buf[i]))    
+                }
+                else if (pad || !is_base64(buf[i]))
                     return ~0;
 
                 ++len;
@@ -151,6 +159,10 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
                 buf[i] = '\0';
         }
 
+        /* Only full quanta are valid, and padding ends the text. */
+        if (len < 4 || (pad && in_sz))
+            return ~0;
+
         if (len)
         {
             size_t nlen = 3 - pad;
-- 
2.43.0


From 59fb66bc6be196bfc02eb17179382c5c7eaf47e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 006/146] fix: reserving space on an empty string left its text
 uninitialised

---
 srcs/toolbox/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 7642944..8eadc87 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -328,7 +328,7 @@ int u_string_reserve (u_string_t *s, size_t size)
     dbg_err_sif (nbuf == NULL);
 
     /* zero terminate it */
-    nbuf[size] = '\0';
+    nbuf[s->data_len] = nbuf[size] = '\0';
 
     s->data = (void *) nbuf;
     s->data_sz = size;
-- 
2.43.0


From fcd2e7cd09e6098fea2be9d3763504df7a7bcdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 007/146] fix: formatted print to a string never returned when
 formatting failed

---
 srcs/toolbox/str.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 8eadc87..d29d4b3 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -460,6 +460,7 @@ int u_string_aprintf (u_string_t *s, const char *fmt, ...)
 static int u_string_do_vprintf (u_string_t *s, int clear, const char *fmt, 
         va_list ap)
 {
+    int rc;
     size_t sz, avail;
     va_list apcpy;
 
@@ -479,10 +480,20 @@ again:
      * if the return value is greater than or equal to the size argument, 
      * the string was too short and some of the printed characters were 
      * discarded; in that case realloc a bigger buffer and retry */
-    sz = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
+    rc = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
 
     va_end(apcpy);
 
+    /* output or encoding error: drop any partial output */
+    if (rc < 0)
+    {
+        if (avail)
+            s->data[s->data_len] = '\0';
+        goto err;
+    }
+
+    sz = (size_t) rc;
+
     if (sz >= avail)
     {
         dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
-- 
2.43.0


From 6b1a3aa6cf83352d9a437a182d3c8579e085ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 008/146] fix: appending fewer characters than stated made a
 string report a wrong length

---
 srcs/toolbox/str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index d29d4b3..be329d7 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -379,11 +379,16 @@ int u_string_do_printf (u_string_t *s, int clear, const char *fmt, ...)
 int u_string_append (u_string_t *s, const char *buf, size_t len)
 {
     size_t nsz, min;
+    const char *eos;
 
     dbg_return_if (s == NULL, ~0);
     dbg_return_if (buf == NULL, ~0);
     nop_return_if (len == 0, 0);    /* nothing to do */
 
+    /* copy at most len chars: stop at the terminating NUL, if any */
+    if ((eos = memchr(buf, '\0', len)) != NULL)
+        len = (size_t) (eos - buf);
+
     /* if there's not enough space on s->data alloc a bigger buffer */
     if (s->data_len + len + 1 > s->data_sz)
     {
-- 
2.43.0


From 1f311e46a583fcacc7ec36cb6c2cc9fcdb7ee50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 009/146] fix: formatted print of 128 characters or more to a
 buffer never returned

---
 srcs/toolbox/buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 38819ed..c2abba3 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -365,7 +365,7 @@ again:
     if (sz >= avail)
     {
         /* enlarge the buffer (make it at least 128 bytes bigger) */
-        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MIN(128, sz + 1)));
+        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MAX(128, sz + 1)));
 
         /* zero-term the buffer (vsnprintf has removed the last \0!) */
         ubuf->data[ubuf->len] = '\0';
-- 
2.43.0


From b0fc81a681cc61dad9cb31be62778c6805993996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 010/146] fix: a formatting error in a buffer print was taken
 for a huge length

---
 srcs/toolbox/buf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index c2abba3..b498307 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -349,6 +349,7 @@ int u_buf_free (u_buf_t *ubuf)
 int u_buf_printf (u_buf_t *ubuf, const char *fmt, ...)
 {
     va_list ap;
+    int rc;
     size_t sz, avail;
 
     dbg_return_if (ubuf == NULL, ~0);
@@ -360,7 +361,8 @@ again:
     avail = ubuf->size - ubuf->len; /* avail may be zero */
 
     /* write to the internal buffer of ubuf */
-    dbg_err_if ((sz = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) <= 0);
+    dbg_err_if ((rc = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) <= 0);
+    sz = (size_t) rc;
 
     if (sz >= avail)
     {
-- 
2.43.0


From df1457bc4181b3c9aacc70f91daf8c61bdaded45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 011/146] fix: loading an empty file into a buffer failed, and
 loads left the buffer unterminated

---
 srcs/toolbox/buf.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index b498307..c36df46 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -127,8 +127,17 @@ int u_buf_load (u_buf_t *ubuf, const char *filename)
     dbg_err_sifm ((fp = fopen(filename, "r")) == NULL, "%s", filename);
 
     /* fill the buffer with the whole file content */
-    dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
-    ubuf->len = st.st_size;
+    if (st.st_size > 0)
+    {
+        dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
+        ubuf->len = st.st_size;
+    }
+    else    /* size unknown (e.g. a special file) unless really empty */
+        dbg_err_if (fgetc(fp) != EOF || ferror(fp));
+
+    /* zero term the buffer (it may be larger than the file) */
+    if (ubuf->data != NULL)
+        ubuf->data[ubuf->len] = '\0';
 
     (void) fclose(fp);
 
-- 
2.43.0


From 322b9ef9630853c99cbb20e24d3f404a7555a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 012/146] fix: growing a dynamic array exposed uninitialised
 slots

---
 srcs/toolbox/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/array.c b/srcs/toolbox/array.c
index 8c7c4f2..801bb67 100644
--- a/srcs/toolbox/array.c
+++ b/srcs/toolbox/array.c
@@ -211,6 +211,10 @@ int u_array_resize (u_array_t *da, size_t idx)
     new_base = u_realloc(da->base, new_nslots * sizeof_type[da->type]);
     warn_err_sif (new_base == NULL);
 
+    /* new slots start zeroed, as those available at creation */
+    memset((char *) new_base + da->nslots * sizeof_type[da->type], 0,
+            (new_nslots - da->nslots) * sizeof_type[da->type]);
+
     da->base = new_base;
     da->nslots = new_nslots;
 
-- 
2.43.0


From 7b4db6aab9978df66b00a26003bb8c4d916a0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 013/146] fix: clearing a list left its element count unchanged

---
 srcs/toolbox/list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/list.c b/srcs/toolbox/list.c
index 16f2c00..fec6cd5 100644
--- a/srcs/toolbox/list.c
+++ b/srcs/toolbox/list.c
@@ -363,6 +363,8 @@ int u_list_clear (u_list_t *list)
         u_free(item);
     }
 
+    list->count = 0;
+
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 52e3c177c10b72dd7b4bbb0cd2977f73a9ab255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 014/146] fix: deleting from a search tree corrupted its
 element counters

---
 srcs/toolbox/bst.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index b30a8c4..c0a939b 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -881,6 +881,10 @@ static u_bst_node_t *u_bst_node_delete (u_bst_t *bst, u_bst_node_t *node,
     {
         delnode = node;
         node = u_bst_node_join_lr(node->left, node->right);
+        /* The joined subtrees count as the deleted node did (the evicted
+         * element is subtracted below). */
+        if (node)
+            node->nelem = delnode->nelem;
         u_bst_node_do_free(bst, delnode);
         *pfound = 1;
     }
-- 
2.43.0


From c2d6a30412517855a53418b23c30ab217ede6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 015/146] fix: rotating a search tree node without the child to
 promote crashed

---
 srcs/toolbox/bst.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index c0a939b..68666e4 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -362,7 +362,8 @@ u_bst_node_t *u_bst_rotate (u_bst_node_t *pivot, u_bst_rot_t dir)
     {
         /* Promote the right child. */
         case U_BST_ROT_LEFT:
-            newroot = pivot->right;
+            if ((newroot = pivot->right) == NULL)
+                return pivot;   /* Nothing to promote. */
             pivot->right = newroot->left;
             newroot->left = pivot;
             /* Update child nodes' counters. */
@@ -372,7 +373,8 @@ u_bst_node_t *u_bst_rotate (u_bst_node_t *pivot, u_bst_rot_t dir)
 
         /* Promote the left child. */
         case U_BST_ROT_RIGHT:
-            newroot = pivot->left;
+            if ((newroot = pivot->left) == NULL)
+                return pivot;   /* Nothing to promote. */
             pivot->left = newroot->right;
             newroot->right = pivot;
             /* Update child nodes' counters. */
-- 
2.43.0


From d9f176c318c3613ce816d76589ebec3885211f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 016/146] fix: search trees freed the user pointer keys and
 leaked their private string values

---
 srcs/toolbox/bst.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 68666e4..92eddde 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -409,6 +409,10 @@ int u_bst_set_keyattr (u_bst_t *bst, u_bst_type_t kt, size_t ks)
 
     if (kt == U_BST_TYPE_OPAQUE)
         bst->keyfree = u_bst_genfree;
+    else if (kt == U_BST_TYPE_PTR && bst->keyfree == u_bst_genfree)
+        bst->keyfree = NULL;    /* Pointers belong to the user. */
+    else if (kt == U_BST_TYPE_STRING && bst->keyfree == NULL)
+        bst->keyfree = u_bst_genfree;   /* The string is a private copy. */
 
     return 0;
 }
@@ -436,6 +440,10 @@ int u_bst_set_valattr (u_bst_t *bst, u_bst_type_t vt, size_t vs)
 
     if (vt == U_BST_TYPE_OPAQUE)
         bst->valfree = u_bst_genfree;
+    else if (vt == U_BST_TYPE_STRING && bst->valfree == NULL)
+        bst->valfree = u_bst_genfree;   /* The string is a private copy. */
+    else if (vt == U_BST_TYPE_PTR && bst->valfree == u_bst_genfree)
+        bst->valfree = NULL;    /* Pointers belong to the user. */
 
     return 0;
 }
-- 
2.43.0


From d9f637074c684da1795e5a9abf11e8804977ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 017/146] fix: clearing a hash map left its element count
 unchanged

---
 srcs/toolbox/hmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 71eeef6..b806703 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -633,6 +633,8 @@ void u_hmap_clear (u_hmap_t *hmap)
         TAILQ_REMOVE(&hmap->pcy.queue, data, next);
         __q_o_free(data);
     }
+
+    hmap->sz = 0;
 }
 
 /**
-- 
2.43.0


From c4a5f7b2ad8415a4be2aadb1a392d31932936482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 018/146] fix: deleting from a hash map cache left a dangling
 policy entry

---
 srcs/toolbox/hmap.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index b806703..08bd09a 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -854,6 +854,10 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
     dbg_err_if (o == NULL);
     LIST_REMOVE(o, next);
 
+    /* forget the object in the policy queue too */
+    if (o->pqe)
+        dbg_err_if (__queue_del(hmap, o));
+
     if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
         __o_free(hmap, o);
     else
@@ -1618,9 +1622,8 @@ static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj)
     dbg_err_if (hmap == NULL);
 
     dbg_err_if ((first = TAILQ_FIRST(&hmap->pcy.queue)) == NULL);
+    /* the queue entry is released along with the object */
     dbg_err_if (u_hmap_del(hmap, first->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, first, next);
-    __q_o_free(first);
 
     return U_HMAP_ERR_NONE;
 err:
@@ -1636,9 +1639,8 @@ static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj)
 
     dbg_err_if ((last = TAILQ_LAST(&hmap->pcy.queue, u_hmap_q_h_s))
             == NULL);
+    /* the queue entry is released along with the object */
     dbg_err_if (u_hmap_del(hmap, last->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, last, next);
-    __q_o_free(last);
 
     return U_HMAP_ERR_NONE;
 
-- 
2.43.0


From 85028a513ff333d1a0a8664e29259c8082395ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 019/146] fix: copying a hash map left stale counts, policy
 entries and owners behind

---
 srcs/toolbox/hmap.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 08bd09a..34bff9a 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1533,6 +1533,10 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
         while ((obj = LIST_FIRST(&from->hmap[i])) != NULL)
         {
             LIST_REMOVE(obj, next);
+            if (obj->pqe)
+                dbg_err_if (__queue_del(from, obj));
+            from->sz--;
+            obj->hmap = to;
             dbg_err_if (u_hmap_put(to, obj, NULL));
         }
     }
@@ -2073,6 +2077,8 @@ static int __resize(u_hmap_t *hmap)
 {
     u_hmap_opts_t *newopts = NULL;
     u_hmap_t *newmap = NULL;
+    u_hmap_o_t *obj;
+    size_t i;
 
     dbg_err_if (hmap == NULL);
 
@@ -2106,6 +2112,11 @@ static int __resize(u_hmap_t *hmap)
     memcpy(hmap, newmap, sizeof(u_hmap_t));
     u_free(newmap);
 
+    /* the elements still belong to this hmap */
+    for (i = 0; i < hmap->size; ++i)
+        LIST_FOREACH(obj, &hmap->hmap[i], next)
+            obj->hmap = hmap;
+
     u_dbg("resized to: %u", hmap->size);
 
     return 0;
-- 
2.43.0


From 823a590738e08c9c434a35380aca50cfda6eb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 020/146] fix: linear probing never used the last slot of a
 probe, so a full hash map cache refused puts

---
 srcs/toolbox/hmap.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 34bff9a..0675aa9 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -680,7 +680,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
     int comp;
     int rc;
     size_t hash;
-    size_t last;
+    size_t i;
 
     dbg_err_if (hmap == NULL);
     dbg_err_if (obj == NULL);
@@ -744,11 +744,10 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 
         case U_HMAP_TYPE_LINEAR:
 
-            last = ((hash + hmap->size-1) % hmap->size);
-
-            for (; hash != last; hash = ((hash+1) % hmap->size),
-                    x = &hmap->hmap[hash])
+            for (i = 0; i < hmap->size; ++i, hash = ((hash+1) % hmap->size))
             {
+                x = &hmap->hmap[hash];
+
                 if (LIST_EMPTY(x))
                 {
                     LIST_INSERT_HEAD(x, obj, next);
@@ -766,6 +765,14 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
                     return rc;
                 }
             }
+
+            /* table full - make room by discarding, if there is a policy */
+            if (hmap->sz >= hmap->opts->max &&
+                    hmap->opts->policy != U_HMAP_PCY_NONE)
+            {
+                dbg_err_if (hmap->pcy.pop(hmap, old));
+                return u_hmap_put(hmap, obj, NULL);
+            }
             break;
     }
 
@@ -1554,7 +1561,7 @@ static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
     u_hmap_e_t *x;
     int comp;
     size_t hash;
-    size_t last;
+    size_t i;
 
     dbg_err_if (hmap == NULL);
     dbg_err_if (key == NULL);
@@ -1595,11 +1602,10 @@ static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
 
         case U_HMAP_TYPE_LINEAR:
 
-            last = ((hash + hmap->size -1) % hmap->size);
-
-            for (; hash != last; hash = ((hash +1) % hmap->size),
-                    x = &hmap->hmap[hash])
+            for (i = 0; i < hmap->size; ++i, hash = ((hash +1) % hmap->size))
             {
+                x = &hmap->hmap[hash];
+
                 if (!LIST_EMPTY(x))
                 {
                     obj = LIST_FIRST(x);
-- 
2.43.0


From b797cf8b474d543cf5a07f56d15a8bcef8402d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 021/146] fix: a key could be stored twice after a deletion
 from a linear probing hash map

---
 srcs/toolbox/hmap.c | 83 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 0675aa9..37690c9 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -117,6 +117,8 @@ struct u_hmap_s
 };
 typedef struct u_hmap_e_s u_hmap_e_t;
 
+static size_t __hash (u_hmap_t *hmap, const void *key);
+static void __unlink (u_hmap_t *hmap, u_hmap_o_t *obj);
 static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o);
 
 static int __opts_check (u_hmap_opts_t *opts);
@@ -692,18 +694,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
             hmap->opts->policy == U_HMAP_PCY_NONE)
         dbg_err_if (__resize(hmap));
 
-    hash = hmap->opts->f_hash(obj->key, hmap->size);
-
-    /* rehash if strong hash is required */
-    if (hmap->opts->f_hash != &__f_hash &&
-            !(hmap->opts->options & U_HMAP_OPTS_HASH_STRONG))
-    {
-        enum { MAX_INT = 20 };
-        char h[MAX_INT];
-
-        u_snprintf(h, MAX_INT, "%u", hash);
-        hash = __f_hash(h, hmap->size);
-    }
+    hash = __hash(hmap, obj->key);
 
     x = &hmap->hmap[hash];
 
@@ -859,7 +850,7 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
         return U_HMAP_ERR_FAIL;
 
     dbg_err_if (o == NULL);
-    LIST_REMOVE(o, next);
+    __unlink(hmap, o);
 
     /* forget the object in the policy queue too */
     if (o->pqe)
@@ -1554,6 +1545,60 @@ err:
     return U_HMAP_ERR_FAIL;
 }
 
+/* Bucket in which the search for a key starts */
+static size_t __hash (u_hmap_t *hmap, const void *key)
+{
+    size_t hash = hmap->opts->f_hash(key, hmap->size);
+
+    /* rehash if strong hash is required */
+    if (hmap->opts->f_hash != &__f_hash &&
+            !(hmap->opts->options & U_HMAP_OPTS_HASH_STRONG))
+    {
+        enum { MAX_INT = 20 };
+        char h[MAX_INT];
+
+        u_snprintf(h, MAX_INT, "%u", hash);
+        hash = __f_hash(h, hmap->size);
+    }
+
+    return hash;
+}
+
+/* Remove an element from its bucket. With linear probing the elements after it
+ * are moved back, so that no free slot separates one from its first bucket */
+static void __unlink (u_hmap_t *hmap, u_hmap_o_t *obj)
+{
+    u_hmap_o_t *o;
+    size_t i, hole, slot, dist;
+
+    if (hmap->opts->type != U_HMAP_TYPE_LINEAR)
+    {
+        LIST_REMOVE(obj, next);
+        return;
+    }
+
+    hole = __hash(hmap, obj->key);
+    while (LIST_FIRST(&hmap->hmap[hole]) != obj)
+        hole = (hole + 1) % hmap->size;
+
+    LIST_REMOVE(obj, next);
+
+    for (i = 1, slot = hole; i < hmap->size; ++i)
+    {
+        slot = (slot + 1) % hmap->size;
+        if ((o = LIST_FIRST(&hmap->hmap[slot])) == NULL)
+            break;
+
+        dist = (slot + hmap->size - __hash(hmap, o->key)) % hmap->size;
+        if (dist >= (slot + hmap->size - hole) % hmap->size)
+        {
+            LIST_REMOVE(o, next);
+            LIST_INSERT_HEAD(&hmap->hmap[hole], o, next);
+            hole = slot;
+        }
+    }
+}
+
 /* Retrieve an hmap element given a key */
 static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
 {
@@ -1567,17 +1612,7 @@ static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
     dbg_err_if (key == NULL);
     dbg_err_if (o == NULL);
 
-    hash = hmap->opts->f_hash(key, hmap->size);
-
-    if (hmap->opts->f_hash != &__f_hash &&
-            !(hmap->opts->options & U_HMAP_OPTS_HASH_STRONG))
-    {
-        enum { MAX_INT = 20 };
-        char h[MAX_INT];
-
-        u_snprintf(h, MAX_INT, "%u", hash);
-        hash = __f_hash(h, hmap->size);
-    }
+    hash = __hash(hmap, key);
 
     x = &hmap->hmap[hash];
 
-- 
2.43.0


From 0800d9e708f15b980bc8017179a11c3d1f305618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 022/146] fix: JSON literals with blanks inside were accepted

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index b77059d..ea20bc5 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1418,7 +1418,7 @@ static int u_json_match_seq (u_lexer_t *jl, u_json_t *jo, int type,
 
     for (i = 0; i < rem_sz; i++)
     {
-        U_LEXER_SKIP(jl, &c);
+        U_LEXER_NEXT(jl, &c);
         if (c != *(rem + i))
         {
             U_LEXER_ERR(jl, "expect \'%c\', got %c at %s", 
-- 
2.43.0


From c68deade6e5786829145bb89b7027fc5990ca787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 023/146] fix: JSON strings and numbers longer than a token
 read uninitialised memory

---
 srcs/toolbox/json.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index ea20bc5..3043e8e 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1297,7 +1297,8 @@ static int u_json_match_number (u_lexer_t *jl, u_json_t *jo)
 
     /* Take care of the fact that the match includes the first non-number char
      * (see u_json_match_{int,exp,frac} for details). */
-    (void) u_lexer_get_match(jl, match);
+    if (u_lexer_get_match(jl, match) == NULL)
+        U_LEXER_ERR(jl, "number too long at %s", u_lexer_lookahead(jl));
     match[strlen(match) - 1] = '\0';
 
     /* Push the matched number into the supplied json object. */
@@ -1698,6 +1699,9 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
      * be taken into account when pulling out the string. */
     u_lexer_record_rmatch(jl);
 
+    if (u_lexer_get_match(jl, match) == NULL)
+        U_LEXER_ERR(jl, "string too long at %s", u_lexer_lookahead(jl));
+
     /* Consume last '"'. */
     U_LEXER_NEXT(jl, &c);
 
@@ -1711,9 +1715,6 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
     {
         dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_STRING));
 
-        /* Remove trailing '"' from match. */
-        (void) u_lexer_get_match(jl, match);
-
         /* Trim trailing '"'. */
         if ((mlen = strlen(match)) >= 1)
             match[mlen - 1] = '\0';
-- 
2.43.0


From 0bbd4f1ec7578ab8bf29fd88d33e74dd729a0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 024/146] fix: the DEL character was refused in JSON strings

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 3043e8e..c0a304d 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1688,7 +1688,7 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
                     U_LEXER_ERR(jl, "invalid char %c in escape", c);
             }
         }
-        else if (iscntrl((int) c))
+        else if ((unsigned char) c < 0x20)
             U_LEXER_ERR(jl, "control character in string", c); 
         else    
             U_LEXER_NEXT(jl, &c);
-- 
2.43.0


From d36e4f6608e3564c8635ba2b0171dc5bb355fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 025/146] fix: walking, freeing or removing a JSON element also
 hit the siblings following it

---
 srcs/toolbox/json.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index c0a304d..906a5e9 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -613,6 +613,8 @@ err:
 void u_json_walk (u_json_t *jo, int strategy, size_t l, 
         void (*cb)(u_json_t *, size_t, void *), void *cb_args)
 {
+    u_json_t *chld, *next;
+
     dbg_return_if (strategy != U_JSON_WALK_PREORDER && 
             strategy != U_JSON_WALK_POSTORDER, );
 
@@ -623,10 +625,12 @@ void u_json_walk (u_json_t *jo, int strategy, size_t l,
         cb(jo, l, cb_args);
 
     /* When recurring into the children branch, increment depth by one. */
-    u_json_walk(TAILQ_FIRST(&jo->children), strategy, l + 1, cb, cb_args);
-
-    /* Siblings are at the same depth as the current node. */
-    u_json_walk(TAILQ_NEXT(jo, siblings), strategy, l, cb, cb_args);
+    for (chld = TAILQ_FIRST(&jo->children); chld != NULL; chld = next)
+    {
+        /* The callback is allowed to dispose the visited node. */
+        next = TAILQ_NEXT(chld, siblings);
+        u_json_walk(chld, strategy, l + 1, cb, cb_args);
+    }
 
     if (strategy == U_JSON_WALK_POSTORDER && cb)
         cb(jo, l, cb_args);
-- 
2.43.0


From bd8c2ab925615e768d2970b3c7f86e58aa9c8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 026/146] fix: JSON encoder dropped empty keys, gave keys to
 array elements and encoded the siblings of the given object

---
 srcs/toolbox/json.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 906a5e9..efed660 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -84,7 +84,7 @@ static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_index (u_json_t *jo, size_t l, void *map);
 
 /* Encode/Decode/Validate. */
-static int u_json_do_encode (u_json_t *jo, u_string_t *s);
+static int u_json_do_encode (u_json_t *jo, u_string_t *s, int top);
 static int u_json_do_parse (const char *json, u_json_t **pjo, 
         char status[U_LEXER_ERR_SZ]);
 
@@ -586,7 +586,7 @@ int u_json_encode (u_json_t *jo, char **ps)
     dbg_return_if (ps == NULL, ~0);
 
     dbg_err_if (u_string_create(NULL, 0, &s));
-    dbg_err_if (u_json_do_encode(jo, s));
+    dbg_err_if (u_json_do_encode(jo, s, 1));
     *ps = u_string_detach_cstr(s);
 
     return 0;
@@ -1138,13 +1138,15 @@ u_json_t *u_json_it_prev (u_json_it_t *it)
  *  \}
  */ 
 
-static int u_json_do_encode (u_json_t *jo, u_string_t *s)
+static int u_json_do_encode (u_json_t *jo, u_string_t *s, int top)
 {
+    u_json_t *chld;
+
     if (jo == NULL)
         return 0;
 
-    /* Optional key. */
-    if (strlen(jo->key))
+    /* The members of an object have a key. */
+    if (!top && jo->parent && jo->parent->type == U_JSON_TYPE_OBJECT)
         dbg_err_if (u_string_aprintf(s, "\"%s\": ", jo->key));
 
     /* Value. */
@@ -1175,8 +1177,14 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
             dbg_err("!");
     }
 
-    /* Explore depth. */
-    dbg_err_if (u_json_do_encode(TAILQ_FIRST(&jo->children), s));
+    /* Explore depth, adding a comma to separate siblings when needed. */
+    TAILQ_FOREACH (chld, &jo->children, siblings)
+    {
+        dbg_err_if (u_json_do_encode(chld, s, 0));
+
+        if (TAILQ_NEXT(chld, siblings))
+            dbg_err_if (u_string_aprintf(s, ", "));
+    }
 
     /* Close matching paren. */
     switch (jo->type)
@@ -1191,13 +1199,6 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
             break;
     }
 
-    /* When needed, add comma to separate siblings. */
-    if (TAILQ_NEXT(jo, siblings))
-        dbg_err_if (u_string_aprintf(s, ", "));
-
-    /* Explore horizontally. */
-    dbg_err_if (u_json_do_encode(TAILQ_NEXT(jo, siblings), s));
-
     return 0;
 err:
     return ~0;
-- 
2.43.0


From e24e3632e6ba8d18e86257e0537d6331ddd015e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 027/146] fix: JSON string and number values followed by other
 text passed the syntax check

---
 srcs/toolbox/json.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index efed660..ed2221e 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -417,7 +417,10 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
             goto end;
     }
 
-    dbg_return_if (u_strlcpy(jo->val, val, sizeof jo->val), ~0);
+    /* No trailing text is allowed after the matched value. */
+    dbg_err_if (check && !u_lexer_eot(vl));
+
+    dbg_err_if (u_strlcpy(jo->val, val, sizeof jo->val));
 
     /* Fall through. */       
 end:
-- 
2.43.0


From 4036689abc82ec7b330fd8d6f9c0ca41153eb08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 028/146] fix: checking a huge JSON value overflowed the stack

---
 srcs/toolbox/json.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index ed2221e..0bc492a 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -389,6 +389,9 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
     dbg_return_if (val == NULL, ~0);
     /* Note that cached objects allow for value overwrite. */
 
+    /* Values that cannot be stored are refused up front. */
+    dbg_return_if (check && strlen(val) >= sizeof jo->val, ~0);
+
     if (check)
     {
         /* XXX The following declaration assumes C99 or C89+support of variable 
-- 
2.43.0


From b647425d617327518bdb1ca5a2f6eb31bbbd4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:50 +0000
Subject: [PATCH 029/146] fix: JSON keys that break the string syntax were
 accepted and encoded

---
 srcs/toolbox/json.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 0bc492a..44fe4fb 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -98,6 +98,7 @@ static int u_json_new_atom (u_json_type_t type, const char *key,
         const char *val, char check, u_json_t **pjo);
 
 static int u_json_set_depth (u_json_t *jo, unsigned int depth);
+static int u_json_check_key (const char *key);
 
 /**
     \defgroup json JSON
@@ -450,6 +451,7 @@ int u_json_set_key (u_json_t *jo, const char *key)
 {
     dbg_return_if (jo == NULL, ~0);
     dbg_return_ifm (jo->map, ~0, "Cannot set key of a cached object");
+    dbg_return_if (key && u_json_check_key(key), ~0);
 
     dbg_return_if (u_strlcpy(jo->key, key ? key : "", sizeof jo->key), ~0);
 
@@ -1629,7 +1631,7 @@ static int u_json_match_pair (u_lexer_t *jl, u_json_t *jo)
         match[mlen - 1] = '\0';
 
     if (jo)
-        dbg_err_if (u_json_set_key(pair, match));
+        dbg_err_if (u_strlcpy(pair->key, match, sizeof pair->key));
 
     /* Consume trailing white spaces, if any. */
     if (isspace((int) u_lexer_peek(jl)))
@@ -1851,6 +1853,17 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     return;
 }
 
+/* A key must be usable as is in between the double quotes of a string. */
+static int u_json_check_key (const char *key)
+{
+    u_json_t jo;
+
+    jo.type = U_JSON_TYPE_STRING;
+    jo.map = NULL;
+
+    return u_json_set_val_ex(&jo, key, 1);
+}
+
 static int u_json_new_container (u_json_type_t type, const char *key, 
         u_json_t **pjo)
 {
-- 
2.43.0


From 8f37ec2130e63e2ef915b98b91599f90f973eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:50 +0000
Subject: [PATCH 030/146] fix: indexing a JSON document again gave wrong array
 positions

---
 srcs/toolbox/json.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 44fe4fb..c9b3902 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1830,15 +1830,13 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
 
         /* Increment the counting index in the parent array. */
         p->icur += 1;
-
-        /* In case we have an array inside another array, initialize the 
-         * counter for later recursive invocation. */
-        if (jo->type == U_JSON_TYPE_ARRAY)
-            jo->icur = 0;
     }
     else
         u_warn("Expecting an object, an array, or a top-level node.");
 
+    /* Initialize the counter for the elements of this node. */
+    jo->icur = 0;
+
     /* Insert node into the hmap. */
     dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
 
-- 
2.43.0


From 47d1483b727a08fdd08591c69208a842b9620813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:50 +0000
Subject: [PATCH 031/146] fix: removing the index of a JSON document left
 dangling references in its elements

---
 srcs/toolbox/json.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index c9b3902..cba7417 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -82,6 +82,7 @@ static const char *u_json_type_str (int type);
 static void u_json_do_print (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_index (u_json_t *jo, size_t l, void *map);
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque);
 
 /* Encode/Decode/Validate. */
 static int u_json_do_encode (u_json_t *jo, u_string_t *s, int top);
@@ -730,8 +731,12 @@ int u_json_unindex (u_json_t *jo)
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map == NULL, 0);
 
+    /* The map is shared by the whole tree. */
+    while (jo->parent)
+        jo = jo->parent;
+
     u_hmap_easy_free(jo->map);
-    jo->map = NULL;
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
 
     return 0;
 }
@@ -1862,6 +1867,15 @@ static int u_json_check_key (const char *key)
     return u_json_set_val_ex(&jo, key, 1);
 }
 
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque)
+{
+    u_unused_args(l, opaque);
+
+    jo->map = NULL;
+
+    return;
+}
+
 static int u_json_new_container (u_json_type_t type, const char *key, 
         u_json_t **pjo)
 {
-- 
2.43.0


From f872f475bc09713e00c9142d4f2a33844d6dbfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:50 +0000
Subject: [PATCH 032/146] fix: indexed JSON values could not be set from a
 container, and containers could be overwritten

---
 srcs/toolbox/json.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index cba7417..84811cb 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -800,7 +800,6 @@ int u_json_cache_set_tv (u_json_t *jo, const char *name,
 {
     u_json_t *res;
 
-    dbg_return_if (U_JSON_OBJ_IS_CONTAINER(jo), ~0);
     dbg_return_if (type == U_JSON_TYPE_OBJECT || type == U_JSON_TYPE_ARRAY, ~0);
     /* 'jo' and 'name' will be checked by u_json_cache_get(); 
      * 'val' consistency is checked after type has been set. */
@@ -808,15 +807,23 @@ int u_json_cache_set_tv (u_json_t *jo, const char *name,
     /* Retrieve the node. */
     dbg_err_if ((res = u_json_cache_get(jo, name)) == NULL);
 
-    /* First set type (in case !unknown) so that we know how to check the
+    /* Only leaf nodes can be set. */
+    dbg_err_if (U_JSON_OBJ_IS_CONTAINER(res));
+
+    /* In case !unknown use the new type so that we know how to check the
      * subsequent value setting. */
-    if (type != U_JSON_TYPE_UNKNOWN)
-        res->type = type;
+    if (type == U_JSON_TYPE_UNKNOWN)
+        type = res->type;
 
     /* Set value.  The caller must have supplied some non-NULL 'val' in case 
      * the final underlying type is a string or a number. */
-    if (res->type == U_JSON_TYPE_STRING || res->type == U_JSON_TYPE_NUMBER)
-        dbg_err_if (val == NULL || u_strlcpy(res->val, val, sizeof res->val));
+    if (type == U_JSON_TYPE_STRING || type == U_JSON_TYPE_NUMBER)
+    {
+        dbg_err_if (val == NULL || strlen(val) >= sizeof res->val);
+        (void) u_strlcpy(res->val, val, sizeof res->val);
+    }
+
+    res->type = type;
 
     return 0;
 err:
-- 
2.43.0


From 1a3ff5d95f31c078feee0dade72f22b26986724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:50 +0000
Subject: [PATCH 033/146] fix: positional access to an indexed JSON array could
 return an element of another one

---
 srcs/toolbox/json.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 84811cb..39fb918 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -852,8 +852,12 @@ u_json_t *u_json_array_get_nth (u_json_t *jo, unsigned int n)
     if (jo->map)
     {
         char elem_fqn[U_JSON_FQN_SZ] = { '\0' };
-        dbg_if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n));
-        return u_json_cache_get(jo, elem_fqn);
+
+        /* The name may be too long, or ambiguous: don't trust blindly. */
+        if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n) == 0
+                && (elem = u_json_cache_get(jo, elem_fqn)) != NULL
+                && elem->parent == jo && strcmp(elem->fqn, elem_fqn) == 0)
+            return elem;
     }
     
     /* Too bad if we don't have cache in place: we have to go through the 
-- 
2.43.0


From 51bdd16779a37cb7253f870a2f068b695012b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 034/146] fix: JSON elements with overlong names were found
 under a truncated name

---
 srcs/toolbox/json.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 39fb918..7ea7728 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -773,8 +773,9 @@ u_json_t *u_json_cache_get (u_json_t *jo, const char *name)
         return res;
 
     /* If 'name' is relative, we need to prefix it with the parent name 
-     * space. */
-    dbg_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name));
+     * space (elements whose name is too long have none). */
+    dbg_return_if (jo->fqn[0] == '\0', NULL);
+    dbg_return_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name), NULL);
 
     return (u_json_t *) u_hmap_easy_get(jo->map, fqn);
 }
@@ -1824,6 +1825,7 @@ static void u_json_do_print (u_json_t *jo, size_t l, void *opaque)
 
 static void u_json_do_index (u_json_t *jo, size_t l, void *map)
 {
+    int fits = 1;
     u_json_t *p;
     u_hmap_t *hmap = (u_hmap_t *) map;
 
@@ -1837,12 +1839,14 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     else if (p->type == U_JSON_TYPE_OBJECT)
     {
         /* Nodes in object containers are named after their key. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, jo->key));
+        fits = p->fqn[0] != '\0' &&
+            !u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, jo->key);
     }
     else if (p->type == U_JSON_TYPE_ARRAY)
     {
         /* Nodes in array containers are named after their ordinal position. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, p->icur));
+        fits = p->fqn[0] != '\0' &&
+            !u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, p->icur);
 
         /* Increment the counting index in the parent array. */
         p->icur += 1;
@@ -1853,8 +1857,12 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     /* Initialize the counter for the elements of this node. */
     jo->icur = 0;
 
+    /* A truncated name would be misleading: do without. */
+    if (!fits)
+        jo->fqn[0] = '\0';
+
     /* Insert node into the hmap. */
-    dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
+    dbg_if (fits && u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
 
     /* Stick the map pointer inside each visited node, so that it can
      * be readily referenced on retrieval. */
-- 
2.43.0


From 6b7c2a4a88d19f9994830a82a6beeb653b73f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 035/146] fix: percent-encoded characters were swallowed by the
 URI parser, broken ones accepted

---
 srcs/toolbox/uri.c | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index beb22c7..74aa217 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -40,7 +40,7 @@ static int u_uri_parse_ipliteral (u_lexer_t *l);
 static int u_uri_parse_ipv4address (u_lexer_t *l);
 static int u_uri_parse_regname (u_lexer_t *l);
 static int u_uri_expect_colon (u_lexer_t *l);
-static int u_uri_expect_pct_encoded (u_lexer_t *l);
+static int u_uri_match_pct_encoded (u_lexer_t *l);
 static int u_uri_expect_segment_nz (u_lexer_t *l);
 static int u_uri_expect_path_abempty (u_lexer_t *l);
 static int u_uri_query_first (u_lexer_t *l);
@@ -784,7 +784,7 @@ static int u_uri_match_ups (u_lexer_t *l)
     {
         /* pct-encoded */
         case '%':
-            warn_err_if (u_uri_expect_pct_encoded(l));
+            return u_uri_match_pct_encoded(l);
 
         /* unreserved */
         case '-': case '.': case '_': case '~': 
@@ -799,10 +799,6 @@ static int u_uri_match_ups (u_lexer_t *l)
         default:
             return isalnum((int) c);
     }
-
-    /* fallthrough */
-err:
-    return 0;
 }
 
 static int u_uri_match_pchar (u_lexer_t *l)
@@ -827,24 +823,14 @@ static int u_uri_match_pchar_minus_at_sign (u_lexer_t *l)
     }
 }
 
-static int u_uri_expect_pct_encoded (u_lexer_t *l)
+/* "%" HEXDIG HEXDIG
+ * Don't move the cursor: this is just a test like any other match function, 
+ * the two hex digits are legal wherever a pct-encoded is. */
+static int u_uri_match_pct_encoded (u_lexer_t *l)
 {
-    char i, c;
-
-    if (u_lexer_peek(l) != '%')
-        U_LEXER_ERR(l, "Expect \'%%\', got \'%c\' instead.", c);
-
-    for (i = 0; i < 2; i++)
-    {
-        U_LEXER_NEXT(l, &c);
-
-        if (!isxdigit((int) c))
-            U_LEXER_ERR(l, "Non hex digit \'%c\' in percent encoding.", c);
-    }
+    const char *s = u_lexer_lookahead(l);
 
-    return 0;
-err:
-    return ~0;
+    return (s[0] == '%' && isxdigit((int) s[1]) && isxdigit((int) s[2]));
 }
 
 /* 1*pchar */
-- 
2.43.0


From 359771a0c6b0aa0ec3860a8d9f6b09b4be18c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 036/146] fix: URI parser accepted any text after the part it
 had understood

---
 srcs/toolbox/uri.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 74aa217..490616e 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -375,6 +375,10 @@ static int u_uri_parser (u_lexer_t *l, u_uri_opts_t opts, u_uri_t **pu)
     if (u_uri_fragment_first(l))
         warn_err_if (u_uri_parse_fragment(l, u));
 
+    /* Nothing else is allowed. */
+    if (!u_lexer_eot(l))
+        U_LEXER_ERR(l, "Unexpected char \'%c\'.", u_lexer_peek(l));
+
     *pu = u;
 
     return 0;
-- 
2.43.0


From 55b737c38b8dcddb0b746630efc2378feae46538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 037/146] fix: URI host names starting with a digit were cut at
 the first other character

---
 srcs/toolbox/uri.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 490616e..3f1a350 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -497,10 +497,15 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
     /* u_uri_parse_ipliteral() will override this. */
     u_lexer_record_lmatch(l);
 
+    /* An IPv4 address may well be the start of a longer reg-name. */
     if (u_uri_ipv4address_first(l))
     {
         warn_err_if (u_uri_parse_ipv4address(l));
-        u->flags |= U_URI_FLAGS_HOST_IS_IPADDRESS;
+
+        if (u_uri_regname_first(l))
+            warn_err_if (u_uri_parse_regname(l));
+        else
+            u->flags |= U_URI_FLAGS_HOST_IS_IPADDRESS;
     }
     else if (u_uri_regname_first(l))
         warn_err_if (u_uri_parse_regname(l));
-- 
2.43.0


From cd4e5e9248d29f941599be3508efd5cbbc5f657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 038/146] fix: an '@' in the path, query or fragment of a URI
 was taken for its user info

---
 srcs/toolbox/uri.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 3f1a350..ae9a950 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -442,6 +442,7 @@ err:
 static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
 {
     char c, i = 0;
+    const char *s;
 
     /* Consume "//". */
     do {
@@ -450,8 +451,9 @@ static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, NULL);
     } while (++i < 2);
 
-    /* [userinfo "@"] */
-    if (strchr(u_lexer_lookahead(l), '@'))
+    /* [userinfo "@"]  The '@' must not be past the end of the authority. */
+    s = u_lexer_lookahead(l);
+    if (s[strcspn(s, "@/?#")] == '@')
         warn_err_if (u_uri_parse_userinfo(l, u));
     warn_err_if (u_uri_parse_host(l, u));
 
-- 
2.43.0


From c1655581c2b6e2df8db40acca195b853e6cb1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 039/146] fix: the first character of a URI user info, even '@'
 or an illegal one, was not checked

---
 srcs/toolbox/uri.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index ae9a950..9ca9bcb 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -627,11 +627,10 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    do {
-        U_LEXER_NEXT(l, &c);
-    } while (u_uri_match_pchar_minus_at_sign(l));
+    while (u_uri_match_pchar_minus_at_sign(l))
+        U_LEXER_NEXT(l, NULL);
 
-    if (u_lexer_peek(l) != '@')
+    if ((c = u_lexer_peek(l)) != '@')
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
@@ -639,8 +638,8 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
 
     /* 3.2.1.  User Information: Use of the format "user:password" in the 
      * userinfo field is deprecated.  Anyway... */
-    if (!(u->opts & U_URI_OPT_DONT_PARSE_USERINFO))
-        dbg_if (u_uri_crumble_user_password(u)); 
+    if (strlen(u->userinfo) && !(u->opts & U_URI_OPT_DONT_PARSE_USERINFO))
+        dbg_err_if (u_uri_crumble_user_password(u)); 
 
     /* Consume '@' and go out. */
     U_LEXER_NEXT(l, NULL);
@@ -661,11 +660,11 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     /* Create a disposable lexer. */
     dbg_err_if (u_lexer_new(u->userinfo, &l));
 
-    /* User name. */
+    /* User name (possibly empty). */
     u_lexer_record_lmatch(l);
 
-    /* Assume there is at least one char available. */
-    do u_lexer_next(l, &c); while (c != ':' && !u_lexer_eot(l));
+    while ((c = u_lexer_peek(l)) != ':' && !u_lexer_eot(l))
+        U_LEXER_NEXT(l, NULL);
 
     u_lexer_record_rmatch(l);
     (void) u_uri_adjust_greedy_match(l, u->user);
-- 
2.43.0


From 401ad95fa02b275472ae98b47d500597cad1ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 040/146] fix: URIs whose path is just a slash were refused

---
 srcs/toolbox/uri.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 9ca9bcb..9f0d416 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -703,16 +703,16 @@ err:
     return ~0;
 }
 
-/* ['/'] segment-nz path-abempty 
+/* '/' / (['/'] segment-nz path-abempty)
  * Absorbs both rootless and absolute paths. */
 static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
 {
     u_lexer_record_lmatch(l);
 
-    if (u_lexer_peek(l) == '/')
-        U_LEXER_NEXT(l, NULL);
-    
-    warn_err_if (u_uri_expect_segment_nz(l));
+    if (u_lexer_peek(l) != '/')
+        warn_err_if (u_uri_expect_segment_nz(l));
+
+    /* The "//" that would start an authority has already been ruled out. */
     warn_err_if (u_uri_expect_path_abempty(l));
 
     u_lexer_record_rmatch(l);
-- 
2.43.0


From 09c4cf65e39c0d6a026f471f14b9138239ff5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 041/146] fix: URI components too long to be stored were
 silently dropped, overlong schemes wrote out of bounds

---
 srcs/toolbox/uri.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 9f0d416..710cfdb 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -430,7 +430,7 @@ static int u_uri_parse_scheme (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_rmatch(l);
 
     /* The match includes the first non-scheme char. */
-    (void) u_lexer_get_match(l, u->scheme);
+    warn_err_if (u_lexer_get_match(l, u->scheme) == NULL);
     u->scheme[strlen(u->scheme) - 1] = '\0';
 
     return 0;
@@ -487,7 +487,7 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->port);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->port));
 
     return 0;
 err:
@@ -523,7 +523,7 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_rmatch(l);
 
-    (void) u_uri_adjust_greedy_match(l, u->host);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->host));
 
     return 0;
 err:
@@ -537,7 +537,7 @@ static int u_uri_adjust_greedy_match (u_lexer_t *l, char match[U_TOKEN_SZ])
     dbg_return_if (l == NULL, ~0);
     dbg_return_if (match == NULL, ~0);
 
-    (void) u_lexer_get_match(l, match);
+    dbg_return_if (u_lexer_get_match(l, match) == NULL, ~0);
     mlen = strlen(match);
 
     if (!u_lexer_eot(l))
@@ -634,7 +634,7 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->userinfo);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->userinfo));
 
     /* 3.2.1.  User Information: Use of the format "user:password" in the 
      * userinfo field is deprecated.  Anyway... */
@@ -667,7 +667,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
         U_LEXER_NEXT(l, NULL);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->user);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->user));
 
     /* Check if we've exhausted the userinfo string. */
     nop_goto_if (u_lexer_eot(l), end);
@@ -681,7 +681,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     do u_lexer_next(l, &c); while (!u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->pwd);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->pwd));
 
 end:
     u_lexer_free(l);
@@ -696,7 +696,7 @@ static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_lmatch(l);
     warn_err_if (u_uri_expect_path_abempty(l));
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -716,7 +716,7 @@ static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
     warn_err_if (u_uri_expect_path_abempty(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -755,7 +755,7 @@ static int u_uri_parse_query (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->query);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->query));
 
     return 0;
 err:
@@ -778,7 +778,7 @@ static int u_uri_parse_fragment (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_lexer_get_match(l, u->fragment);
+    warn_err_if (u_lexer_get_match(l, u->fragment) == NULL);
 
     return 0;
 err:
-- 
2.43.0


From 79cfaeece40d32900e855ad2cc5c478b040a8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 042/146] fix: URIs without an authority could not be
 recomposed

---
 srcs/toolbox/uri.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 710cfdb..479555d 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -169,8 +169,14 @@ int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_strlcat(s, "//", U_URI_STRMAX));
         dbg_err_if (u_strlcat(s, u->authority, U_URI_STRMAX));
     }
-    else /* try recompose authority through its atoms */
+    else if (strlen(u->host) || strlen(u->port) || strlen(u->userinfo)
+            || strlen(u->user) || strlen(u->pwd)
+            || !strncmp(u->path, "//", strlen("//")))
+    {
+        /* Try recompose authority through its atoms.  (A path that begins with 
+         * two slashes needs an authority, even though an empty one.) */
         dbg_err_if (u_uri_knead_authority(u, s));
+    }
 
     dbg_err_if (u_strlcat(s, u->path, U_URI_STRMAX));
 
@@ -883,7 +889,6 @@ static int u_uri_expect_path_abempty (u_lexer_t *l)
 static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
 {
     dbg_return_if (u == NULL, ~0);
-    dbg_return_if (strlen(u->host) == 0, ~0);
     dbg_return_if (s == NULL, ~0);
 
     /* If host is IPv6 literal, automatically add the IPLITERAL flag.
-- 
2.43.0


From b17d685dc765bf56ad439f31c15c21c2540ace2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 043/146] fix: recomposing a URI dropped a password set without
 a user

---
 srcs/toolbox/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 479555d..2901bdb 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -903,7 +903,7 @@ static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_strlcat(s, u->userinfo, U_URI_STRMAX));
         dbg_err_if (u_strlcat(s, "@", U_URI_STRMAX));
     }
-    else if (strlen(u->user))
+    else if (strlen(u->user) || strlen(u->pwd))
     {
         dbg_err_if (u_strlcat(s, u->user, U_URI_STRMAX)); 
 
-- 
2.43.0


From f11b75628b38316bda1444a03a90a8f2962b201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 044/146] fix: recomposing a URI glued a relative path to the
 authority

---
 srcs/toolbox/uri.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 2901bdb..b8d6372 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -151,6 +151,8 @@ err:
  */ 
 int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
 {
+    size_t plen;
+
     dbg_return_if (u == NULL, ~0);
     dbg_return_if (s == NULL, ~0);
 
@@ -164,6 +166,8 @@ int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_strlcat(s, ":", U_URI_STRMAX));
     }
 
+    plen = strlen(s);
+
     if (strlen(u->authority))
     {
         dbg_err_if (u_strlcat(s, "//", U_URI_STRMAX));
@@ -178,6 +182,10 @@ int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_uri_knead_authority(u, s));
     }
 
+    /* If there is an authority, the path that follows must be absolute. */
+    if (strlen(s) > plen && strlen(u->path) && u->path[0] != '/')
+        dbg_err_if (u_strlcat(s, "/", U_URI_STRMAX));
+
     dbg_err_if (u_strlcat(s, u->path, U_URI_STRMAX));
 
     if (strlen(u->query))
-- 
2.43.0


From 62a0fb44f592cdec3c554a21189551d0a736ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 045/146] fix: replacing an IP literal host left the square
 brackets around the new one

---
 srcs/toolbox/uri.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index b8d6372..1815b59 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -330,7 +330,8 @@ err:
     return 0;
 }
 
-#define U_URI_GETSET_F(field)                                       \
+#define U_URI_GETSET_F(field)   U_URI_GETSET_F_EX(field, (void) 0)
+#define U_URI_GETSET_F_EX(field, onset)                             \
 const char *u_uri_get_##field (u_uri_t *uri)                        \
 {                                                                   \
     dbg_return_if (uri == NULL, NULL);                              \
@@ -343,6 +344,7 @@ int u_uri_set_##field (u_uri_t *uri, const char *val)               \
     dbg_return_if (val == NULL, ~0);                                \
                                                                     \
     dbg_err_if (u_strlcpy(uri->field, val, sizeof uri->field));     \
+    onset;                                                          \
                                                                     \
     return 0;                                                       \
 err:                                                                \
@@ -353,7 +355,7 @@ U_URI_GETSET_F(scheme)
 U_URI_GETSET_F(userinfo)
 U_URI_GETSET_F(user)
 U_URI_GETSET_F(pwd)
-U_URI_GETSET_F(host)
+U_URI_GETSET_F_EX(host, uri->flags = U_URI_FLAGS_NONE)   /* of another host */
 U_URI_GETSET_F(port)
 U_URI_GETSET_F(authority)
 U_URI_GETSET_F(path)
@@ -896,13 +898,15 @@ static int u_uri_expect_path_abempty (u_lexer_t *l)
 
 static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
 {
+    int literal;
+
     dbg_return_if (u == NULL, ~0);
     dbg_return_if (s == NULL, ~0);
 
-    /* If host is IPv6 literal, automatically add the IPLITERAL flag.
+    /* If host is IPv6 literal, automatically add the square brackets.
      * XXX Lousy test, we'd better parse it through u_uri_parse_ipliteral() */
-    if (strchr(u->host, ':'))
-        u->flags |= U_URI_FLAGS_HOST_IS_IPLITERAL;
+    literal = (u->flags & U_URI_FLAGS_HOST_IS_IPLITERAL)
+        || strchr(u->host, ':') != NULL;
 
     dbg_err_if (u_strlcat(s, "//", U_URI_STRMAX));
 
@@ -924,12 +928,12 @@ static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_strlcat(s, "@", U_URI_STRMAX));
     }
 
-    if (u->flags & U_URI_FLAGS_HOST_IS_IPLITERAL)
+    if (literal)
         dbg_err_if (u_strlcat(s, "[", U_URI_STRMAX));
 
     dbg_err_if (u_strlcat(s, u->host, U_URI_STRMAX));
 
-    if (u->flags & U_URI_FLAGS_HOST_IS_IPLITERAL)
+    if (literal)
         dbg_err_if (u_strlcat(s, "]", U_URI_STRMAX));
 
     if (strlen(u->port))
-- 
2.43.0


From 8d06b74c674bbea761333b85c7e6a9293fcf4ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 046/146] fix: skipping trailing blanks up to the end of text
 was not reported as such

---
 srcs/toolbox/lexer.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/srcs/toolbox/lexer.c b/srcs/toolbox/lexer.c
index 0203dfc..fd05419 100644
--- a/srcs/toolbox/lexer.c
+++ b/srcs/toolbox/lexer.c
@@ -194,12 +194,9 @@ int u_lexer_eat_ws (u_lexer_t *l)
     dbg_return_if (u_lexer_eot(l), -1);
 
     while (isspace((int) l->s[l->pos]))
-    {
-        dbg_return_if (u_lexer_eot(l), -1);
         u_lexer_incr(l);
-    }
 
-    return 0;
+    return u_lexer_eot(l) ? -1 : 0;
 }
 
 /** 
-- 
2.43.0


From 473317fa3ae940b77e09d223ab0507837426d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 047/146] fix: a stale errno made integer conversions of 0 and
 of the extreme values fail

---
 srcs/toolbox/misc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 0f0a3b6..434fdbb 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -720,6 +720,9 @@ int u_atol (const char *nptr, long *pl)
 
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pl == NULL, ~0);
+
+    /* Reset errno, strtol(3) sets it on error only. */
+    errno = 0;
  
     tmp = strtol(nptr, &endptr, 10);
     
@@ -799,6 +802,9 @@ int u_atoumax (const char *nptr, uintmax_t *pumax)
 
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pumax == NULL, ~0);
+
+    /* Reset errno, strtoumax(3) sets it on error only. */
+    errno = 0;
  
     tmp = strtoumax(nptr, (char **) NULL, 10);
     
-- 
2.43.0


From 6d5529b650099a101d48b031e604adfd5bcc5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 048/146] fix: u_atoumax took a text without any digit for 0

---
 srcs/toolbox/misc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 434fdbb..608a05d 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -797,6 +797,7 @@ err:
  */
 int u_atoumax (const char *nptr, uintmax_t *pumax)
 {
+    char *endptr;
     uintmax_t tmp; 
     int saved_errno = errno;
 
@@ -806,10 +807,13 @@ int u_atoumax (const char *nptr, uintmax_t *pumax)
     /* Reset errno, strtoumax(3) sets it on error only. */
     errno = 0;
  
-    tmp = strtoumax(nptr, (char **) NULL, 10);
+    tmp = strtoumax(nptr, &endptr, 10);
     
     dbg_err_if (tmp == 0 && errno == EINVAL);
     dbg_err_if (tmp == UINTMAX_MAX && errno == ERANGE);
+
+    /* No conversion performed (see u_atol). */
+    dbg_err_if (nptr == endptr);
         
     *pumax = tmp;
     
-- 
2.43.0


From 6d9c0eec5ca745116a81c60a7ab5a9fc19cb35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 049/146] fix: u_tokenize wrote past a token vector of one cell

---
 srcs/toolbox/misc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 608a05d..c2e6557 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -913,15 +913,14 @@ int u_tokenize (char *wlist, const char *delim, char **tokv, size_t tokv_sz)
 
     ap = tokv;
 
-    for ( ; (*ap = strsep(&wlist, delim)) != NULL; )
+    /* check bounds (leave room for the stopper) */
+    while (ap < &tokv[tokv_sz - 1] && (*ap = strsep(&wlist, delim)) != NULL)
     {
         /* skip empty field */
         if (**ap == '\0')
             continue;
 
-        /* check bounds */
-        if (++ap >= &tokv[tokv_sz - 1])
-            break;
+        ++ap;
     }
 
     /* put an explicit stopper to tokv */
-- 
2.43.0


From e4ab7352b1e33c3a4f358051e631af718dc22438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 050/146] fix: copying a file closed a stream twice when
 closing it failed

---
 srcs/toolbox/fs.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index fa37772..ec71d64 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -35,6 +35,7 @@
 int u_copy (const char *src, const char *dst)
 {
     FILE *sfp = NULL, *dfp = NULL;
+    int rc;
     size_t c;
     char buf[4096];
 
@@ -52,9 +53,11 @@ int u_copy (const char *src, const char *dst)
         dbg_err_sifm(fwrite(buf, 1, c, dfp) == 0, "error writing to %s", dst);
     }
 
-    dbg_err_sif(fclose(sfp)); sfp = NULL;
+    rc = fclose(sfp); sfp = NULL;
+    dbg_err_sif(rc);
 
-    dbg_err_sifm(fclose(dfp), "error flushing %s", dst); dfp = NULL;
+    rc = fclose(dfp); dfp = NULL;
+    dbg_err_sifm(rc, "error flushing %s", dst);
 
     return 0;
 err:
-- 
2.43.0


From 2a8c20ddd1f81133805e3ea2fce21b59f6efd070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 051/146] fix: copying a file took read errors and short writes
 for success

---
 srcs/toolbox/fs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index ec71d64..b55f3ea 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -50,8 +50,9 @@ int u_copy (const char *src, const char *dst)
 
     while((c = fread(buf, 1, sizeof(buf), sfp)) > 0)
     {
-        dbg_err_sifm(fwrite(buf, 1, c, dfp) == 0, "error writing to %s", dst);
+        dbg_err_sifm(fwrite(buf, 1, c, dfp) != c, "error writing to %s", dst);
     }
+    dbg_err_sifm(ferror(sfp), "error reading from %s", src);
 
     rc = fclose(sfp); sfp = NULL;
     dbg_err_sif(rc);
-- 
2.43.0


From 39dcbc59b16412b6ff557c98f04a764d52b166d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 052/146] fix: moving a file reported success when the source
 could not be removed

---
 srcs/toolbox/fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index b55f3ea..792df1d 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -98,7 +98,7 @@ int u_move(const char *src, const char *dst)
     dbg_err_if(u_copy(src, dst));
 #endif
 
-    dbg_if(u_remove(src) < 0);
+    dbg_err_if(u_remove(src));
 
     return 0;
 err:
-- 
2.43.0


From b9cec22427f052e69166a88adcef275476b70740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 053/146] fix: copying or moving a file onto itself destroyed
 it

---
 srcs/toolbox/fs.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index 792df1d..0adf7ab 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -38,6 +38,7 @@ int u_copy (const char *src, const char *dst)
     int rc;
     size_t c;
     char buf[4096];
+    struct stat src_st, dst_st;
 
     dbg_return_if (src == NULL, ~0);
     dbg_return_if (dst == NULL, ~0);
@@ -45,6 +46,14 @@ int u_copy (const char *src, const char *dst)
     sfp = fopen(src, "rb");
     dbg_err_sifm(sfp == NULL, "unable to open %s for reading", src);
 
+    /* opening the destination truncates it: be sure it isn't the source */
+    dbg_err_sif(fstat(fileno(sfp), &src_st) == -1);
+    if(stat(dst, &dst_st) == 0)
+        dbg_err_ifm(src_st.st_dev == dst_st.st_dev && src_st.st_ino == dst_st.st_ino,
+                "%s and %s are the same file", src, dst);
+    else
+        dbg_err_sif(errno != ENOENT);
+
     dfp = fopen(dst, "wb+");
     dbg_err_sifm(dfp == NULL, "unable to open %s for writing", dst);
 
-- 
2.43.0


From ca4f816a1bc6adbc165c8789976d85fd067c0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 054/146] fix: loading an empty file failed

---
 srcs/toolbox/misc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index c2e6557..fe15169 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -539,8 +539,11 @@ int u_load_file (const char *path, size_t sz_max, char **pbuf, size_t *psz)
     sz = sb.st_size;
     dbg_err_ifm (sz_max > 0 && sz > sz_max, 
             "file too big (%zu vs %zu bytes)", sz, sz_max);
-    dbg_err_sif ((buf = u_zalloc(sz)) == NULL);
-    dbg_err_sifm (fread(buf, sz, 1, fp) != 1, "%s", path);
+    dbg_err_sif ((buf = u_zalloc(sz + 1)) == NULL);
+    if (sz > 0)
+        dbg_err_sifm (fread(buf, sz, 1, fp) != 1, "%s", path);
+    else    /* size unknown (e.g. a special file) unless really empty */
+        dbg_err_ifm (fgetc(fp) != EOF || ferror(fp), "%s", path);
     
     U_FCLOSE(fp);
     
-- 
2.43.0


From 6b91ae86bf9b721b6d5b3ed761944aa3399111c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 055/146] fix: dumping data ignored write errors found when
 flushing, and refused to dump nothing

---
 srcs/toolbox/misc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index fe15169..0cc0a0b 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -499,11 +499,13 @@ inline void u_use_unused_args (char *dummy, ...)
  */
 int u_data_dump (char *data, size_t sz, const char *file)
 {
+    int rc;
     FILE *fp = NULL;
 
     dbg_err_sif ((fp = fopen(file, "w")) == NULL); 
-    dbg_err_sif (fwrite(data, sz, 1, fp) < 1);
-    fclose(fp);
+    dbg_err_sif (sz > 0 && fwrite(data, sz, 1, fp) < 1);
+    rc = fclose(fp); fp = NULL;
+    dbg_err_sif (rc != 0);
 
     return 0;
 err:
-- 
2.43.0


From f75fdea827c844363f9baad2ad8ff8f9bf3e19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 056/146] fix: saving the process id ignored write errors

---
 srcs/toolbox/misc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 0cc0a0b..cb7ac1b 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -429,13 +429,15 @@ err:
  */
 int u_savepid (const char *pf)
 {
+    int rc;
     FILE *pfp = NULL;
 
     dbg_return_if (pf == NULL, ~0);
 
     dbg_err_sif ((pfp = fopen(pf, "w")) == NULL);
-    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) == 0);
-    fclose(pfp);
+    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) < 0);
+    rc = fclose(pfp); pfp = NULL;
+    dbg_err_sif (rc != 0);
 
     return 0;
 err:
-- 
2.43.0


From 54ac053780f998d73bfa2d6edea7677c6c306ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 057/146] fix: configuration lines longer than the read buffer
 lost characters, a last line without newline was ignored

---
 srcs/toolbox/config.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index bf84372..4a4fd8b 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1087,14 +1087,16 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
         len = strlen(buf);
         if(len == 0)
             break; /* empty line */
-        dbg_err_if(u_string_append(ln, buf, --len));
-        if(!u_isnl(buf[len]))
-            continue; /* line's longer the bufsz (or eof);get next line chunk */
-        else
+        if(buf[len - 1] == '\n')
+        {
+            dbg_err_if(u_string_append(ln, buf, len - 1));
             break;
+        }
+        /* line's longer the bufsz (or eof);get next line chunk */
+        dbg_err_if(u_string_append(ln, buf, len));
     }
 
-    nop_err_if(p == NULL); /* eof */
+    nop_err_if(p == NULL && u_string_len(ln) == 0); /* eof */
 
     return 0;
 err:
-- 
2.43.0


From 178eae364315a0827eb38ef344fda2c6367cde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 058/146] fix: configuration lines of 2048 characters or more
 failed to load

---
 srcs/toolbox/config.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 4a4fd8b..ee0d2cf 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1351,11 +1351,11 @@ err:
 
 static int u_config_remove_comment(u_string_t *line)
 {
-    char last, ln[2048], *p;
+    char last, *ln = NULL, *p;
 
     dbg_return_if (line == NULL, ~0);
 
-    dbg_err_if (u_strlcpy(ln, u_string_c(line), sizeof ln));
+    dbg_err_sif ((ln = u_strdup(u_string_c(line))) == NULL);
 
     for (last = '\0', p = ln; *p != '\0'; )
     {
@@ -1388,8 +1388,11 @@ static int u_config_remove_comment(u_string_t *line)
 
     dbg_err_if (u_string_set(line, ln, strlen(ln)));
 
+    u_free(ln);
+
     return 0;
 err:
+    U_FREE(ln);
     return ~0;
 }
 
-- 
2.43.0


From 70f13d2c46a1954460499aefe3d07583ed1e6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 059/146] fix: a configuration section could open after an
 unrelated key

---
 srcs/toolbox/config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index ee0d2cf..1e1276f 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1208,6 +1208,8 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                         u_string_c(key), 
                         u_string_len(value) ? u_string_c(value) : NULL, 
                         overwrite, NULL));
+
+        dbg_err_if(u_string_clear(lastkey));
     }
     
     u_string_free(lastkey);
-- 
2.43.0


From 4ccb155b5f862b64a1cb8b3218c96caa93afcca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 060/146] fix: a configuration with a missing or, in an
 included or nested source, an unmatched closing brace was accepted

---
 srcs/toolbox/config.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 1e1276f..eb6e198 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -46,7 +46,7 @@ static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite);
+        void *arg, int overwrite, int nested);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
         u_config_t *inckey, int overwrite);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
@@ -569,7 +569,7 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0));
 
     return 0;
 err:
@@ -600,7 +600,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
     file = fdopen(dup(fd), "r");
     dbg_err_if(file == NULL);
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
 
     fclose(file);
 
@@ -900,7 +900,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     if(drv->open)
         dbg_err_if (drv->open(uri, &arg));
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
         dbg_err_if (drv->close(arg));
@@ -989,7 +989,7 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0));
 
     *pc = c;
 
@@ -1104,13 +1104,13 @@ err:
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite)
+        void *arg, int overwrite, int nested)
 {
     enum { MAX_NEST_LEV = 20 };
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
-    int lineno = 1;
+    int lineno = 1, closed = 0;
     u_config_t *child = NULL;
     u_config_t *subkey;
 
@@ -1157,16 +1157,17 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite));
+            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, 1));
 
             dbg_err_if(u_string_clear(lastkey));
 
             continue;
         } else if(ln[0] == '}') {
-            crit_err_ifm(c->parent == NULL,"config error: unmatched '}'");
+            crit_err_ifm(!nested,"config error: unmatched '}'");
             if(!u_isblank_str(++ln))
                 dbg_err("config error [line %d]: { or } must be the "
                          "only not-blank char in a line", lineno);
+            closed = 1;
             break; /* exit */
         }
 
@@ -1211,7 +1212,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
         dbg_err_if(u_string_clear(lastkey));
     }
-    
+
+    crit_err_ifm(nested && !closed, "config error: missing '}'");
+
     u_string_free(lastkey);
     u_string_free(value);
     u_string_free(key);
@@ -1269,7 +1272,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
         crit_err_ifm (drv->close(arg),
-- 
2.43.0


From deb42405369483729c8bb5e68c537758622a56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 061/146] fix: a read error while loading a configuration was
 taken for the end of the file

---
 srcs/toolbox/config.c    | 3 +++
 srcs/toolbox/config_fs.c | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index eb6e198..ad29eeb 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -602,6 +602,9 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
 
     dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
 
+    /* a read error looks like the end of file to the loader */
+    dbg_err_if(ferror(file));
+
     fclose(file);
 
     return 0;
diff --git a/srcs/toolbox/config_fs.c b/srcs/toolbox/config_fs.c
index fbd5d06..a53a17c 100644
--- a/srcs/toolbox/config_fs.c
+++ b/srcs/toolbox/config_fs.c
@@ -48,15 +48,18 @@ err:
 
 static int drv_fs_close (void *arg)
 {
-    int rc;
+    int rc, rderr;
     FILE *file = (FILE *) arg;
 
     dbg_return_if (file == NULL, ~0);
 
+    /* a read error looks like the end of file to the loader */
+    rderr = ferror(file);
+
     if ((rc = fclose(file)) != 0)
         dbg_strerror(errno);
 
-    return (rc == 0) ? 0 : ~0;
+    return (rc == 0 && !rderr) ? 0 : ~0;
 }
 
 static char *drv_fs_gets (void *arg, char *buf, size_t size)
-- 
2.43.0


From e30d79e365846e121b9c80a73700ebdb821d90fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 062/146] fix: setting the top configuration object to a value
 with a variable crashed

---
 srcs/toolbox/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index ad29eeb..63374c5 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -483,7 +483,8 @@ int u_config_set_value (u_config_t *c, const char *val)
             /* first see if the variable can be resolved in the local scope
                otherwise resolve it from the root */
             root = c->parent;
-            if(u_config_get_subkey(root, u_string_c(var), &ignore))
+            if(root == NULL || 
+                    u_config_get_subkey(root, u_string_c(var), &ignore))
                 root = u_config_get_root(c);
             dbg_err_if(root == NULL);
 
-- 
2.43.0


From a6b5935d394f8794f4527d9f88d9244c535ade30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 063/146] fix: a configuration value was lost when setting it
 to itself or to a malformed value

---
 srcs/toolbox/config.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 63374c5..b9a1628 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -445,17 +445,11 @@ int u_config_set_value (u_config_t *c, const char *val)
 {
     u_config_t *root, *ignore;
     const char *varval, *vs, *ve, *p;
+    char *newval = NULL;
     u_string_t *var = NULL, *value = NULL;
 
     dbg_err_if(c == NULL);
 
-    /* free() previous value if any */
-    if(c->value)
-    {
-        U_FREE(c->value);
-        c->value = NULL;
-    } 
-
     if(val)
     {
         dbg_err_if(u_string_create(NULL, 0, &var));
@@ -498,13 +492,18 @@ int u_config_set_value (u_config_t *c, const char *val)
 
         u_string_trim(value); /* remove leading and trailing spaces */
 
-        c->value = u_strdup(u_string_c(value));;
-        dbg_err_if(c->value == NULL);
+        newval = u_strdup(u_string_c(value));
+        dbg_err_if(newval == NULL);
 
         u_string_free(value);
         u_string_free(var);
     }
 
+    /* replace the previous value, if any (it may be referenced by the new one,
+     * and is retained on failure) */
+    U_FREE(c->value);
+    c->value = newval;
+
     return 0;
 err:
     if(value)
-- 
2.43.0


From f44f12ab185e98d9c803d71c2c7fad34603df2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 064/146] fix: failing to set a configuration key left an empty
 key behind

---
 srcs/toolbox/config.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index b9a1628..869ad76 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1049,8 +1049,8 @@ static u_config_t *u_config_get_root (u_config_t *c)
 static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild)
 {
-    u_config_t *child = NULL;
-    char *p, *child_key;
+    u_config_t *child = NULL, *newchild = NULL;
+    char *p, *child_key = NULL;
 
     if((p = strchr(key, '.')) == NULL)
     {
@@ -1058,6 +1058,7 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         if(child == NULL || !overwrite)
         {   /* there's no such child, add a new child */
             dbg_err_if(u_config_add_child(c, key, &child));
+            newchild = child;
         } 
         dbg_err_if(u_config_set_value(child, val));
 
@@ -1068,12 +1069,19 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         child_key = u_strndup(key, p-key);
         dbg_err_if(child_key == NULL);
         if((child = u_config_get_child(c, child_key)) == NULL)
+        {
             dbg_err_if(u_config_add_child(c, child_key, &child));
+            newchild = child;
+        }
         U_FREE(child_key);
-        return u_config_do_set_key(child, ++p, val, overwrite, NULL);
+        dbg_err_if(u_config_do_set_key(child, ++p, val, overwrite, NULL));
     }
     return 0;
 err:
+    /* don't leave half-made keys around */
+    if(newchild)
+        (void) u_config_del_child(c, newchild);
+    U_FREE(child_key);
     return ~0;
 }
 
-- 
2.43.0


From 6576816c93789cd90cbf92f38f50f3a217ccc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 065/146] fix: the n-th configuration subkey with a dotted name
 was always the first

---
 srcs/toolbox/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 869ad76..c80d195 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -406,7 +406,7 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
         }
 
         if (child != NULL)
-            return u_config_get_subkey(child, ++p, pc);
+            return u_config_get_subkey_nth(child, ++p, n, pc);
     }
 
     return ~0; /* not found */
-- 
2.43.0


From ec2b287e21a4845b114682d0e79f68062d9c8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 066/146] fix: a configuration source was closed again when
 closing it had failed, or not at all if its handle was NULL

---
 srcs/toolbox/config.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index c80d195..52795d5 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -891,6 +891,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
 {
     u_config_t *c = NULL;
     void *arg = NULL;
+    int opened = 0;
 
     dbg_err_if (uri == NULL);
     dbg_err_if (pc == NULL);
@@ -901,10 +902,14 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     dbg_err_if (u_config_create(&c));
 
     if(drv->open)
+    {
         dbg_err_if (drv->open(uri, &arg));
+        opened = 1;
+    }
 
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
+    opened = 0;
     if(drv->close)
         dbg_err_if (drv->close(arg));
 
@@ -912,7 +917,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
 
     return 0;
 err:
-    if(arg && drv->close)
+    if(opened && drv->close)
         drv->close(arg);
     if(c)
         u_config_free(c);
@@ -1251,6 +1256,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     int i;
     const char *p, *path;
     void *arg = NULL;
+    int opened = 0;
     char uri[U_FILENAME_MAX + 1];
 
     dbg_err_if(c == NULL);
@@ -1282,9 +1288,11 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
 
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
+    opened = 1;
 
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
+    opened = 0;
     if(drv->close)
         crit_err_ifm (drv->close(arg),
             "unable to close input file: %s", p);
@@ -1293,7 +1301,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
 
     return 0;
 err:
-    if(arg && drv->close)
+    if(opened && drv->close)
         drv->close(arg);
     return ~0;
 }
-- 
2.43.0


From d5074bd9724199199ebf3a50bcc2388ca653a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 067/146] fix: loading a configuration from a descriptor leaked
 a descriptor on failure

---
 srcs/toolbox/config.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 52795d5..256bc6d 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -595,10 +595,11 @@ err:
 int u_config_load (u_config_t *c, int fd, int overwrite)
 {
     FILE *file = NULL;
+    int dfd = -1;
 
     /* must dup because fclose() calls close(2) on fd */
-    file = fdopen(dup(fd), "r");
-    dbg_err_if(file == NULL);
+    dbg_err_sif((dfd = dup(fd)) == -1);
+    dbg_err_sif((file = fdopen(dfd, "r")) == NULL);
 
     dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
 
@@ -609,7 +610,10 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
 
     return 0;
 err:
-    U_FCLOSE(file);
+    if(file)
+        fclose(file);
+    else
+        U_CLOSE(dfd);
     return ~0;
 }
 
-- 
2.43.0


From 73cfb4a40e4c4fe7d35c8bf2f55b818cf1c3eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 068/146] fix: a configuration source including itself recursed
 without end, and none could be included twice

---
 srcs/toolbox/config.c | 56 +++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 256bc6d..8eee0be 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -38,6 +38,13 @@ struct u_config_buf_s
     size_t len;
 };
 
+/* a source being loaded, and the one that includes it */
+struct u_config_src_s
+{
+    const char *uri;
+    const struct u_config_src_s *from;
+};
+
 /* file system pre-defined driver */
 extern u_config_driver_t u_config_drv_fs;
 
@@ -46,9 +53,10 @@ static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite, int nested);
+        void *arg, int overwrite, int nested, 
+        const struct u_config_src_s *src);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite);
+        u_config_t *inckey, int overwrite, const struct u_config_src_s *src);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
 static int u_config_to_str (u_config_t *c, u_string_t *s);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
@@ -569,7 +577,7 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0, NULL));
 
     return 0;
 err:
@@ -601,7 +609,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
     dbg_err_sif((dfd = dup(fd)) == -1);
     dbg_err_sif((file = fdopen(dfd, "r")) == NULL);
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0, NULL));
 
     /* a read error looks like the end of file to the loader */
     dbg_err_if(ferror(file));
@@ -896,6 +904,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     u_config_t *c = NULL;
     void *arg = NULL;
     int opened = 0;
+    struct u_config_src_s src = { uri, NULL };
 
     dbg_err_if (uri == NULL);
     dbg_err_if (pc == NULL);
@@ -911,7 +920,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
         opened = 1;
     }
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0, &src));
 
     opened = 0;
     if(drv->close)
@@ -1001,7 +1010,7 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0, NULL));
 
     *pc = c;
 
@@ -1124,9 +1133,8 @@ err:
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite, int nested)
+        void *arg, int overwrite, int nested, const struct u_config_src_s *src)
 {
-    enum { MAX_NEST_LEV = 20 };
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
@@ -1177,7 +1185,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, 1));
+            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, 1, src));
 
             dbg_err_if(u_string_clear(lastkey));
 
@@ -1212,9 +1220,11 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
             /* load the included file */
             if (u_string_c(key)[0] == '-')  /* failure is not critical */
-                dbg_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_if(u_config_include(c, drv, subkey, overwrite,
+                            src));
             else                            /* failure is critical */
-                dbg_err_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_err_if(u_config_include(c, drv, subkey, overwrite,
+                            src));
         } 
 
         /* if the valus is empty an open bracket will follow, save the key */
@@ -1254,9 +1264,11 @@ err:
 }
 
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite)
+        u_config_t *inckey, int overwrite, const struct u_config_src_s *from)
 {
-    u_config_t *subkey;
+    enum { MAX_NEST_LEV = 20 };
+    const struct u_config_src_s *s;
+    struct u_config_src_s src = { NULL, from };
     int i;
     const char *p, *path;
     void *arg = NULL;
@@ -1268,12 +1280,6 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     path = u_config_get_value(inckey);
     dbg_err_if(path == NULL);
 
-    for(i = 0; u_config_get_subkey_nth(c, "include", i, &subkey) == 0; ++i)
-    {
-        if(subkey != inckey && !strcmp(path, u_config_get_value(subkey)))
-            crit_err("circular dependency error loading %s", path);
-    }
-
     /* find the end of the key string */
     for(p = path; *p && u_isblank(*p); ++p);
 
@@ -1290,11 +1296,21 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
         p = uri;
     } 
 
+    /* refuse to load a source from within itself */
+    for(i = 0, s = from; s != NULL; ++i, s = s->from)
+    {
+        crit_err_ifm (!strcmp(p, s->uri), 
+            "circular dependency error loading %s", path);
+    }
+    crit_err_ifm (i >= MAX_NEST_LEV, "too many nested includes loading %s", 
+            path);
+    src.uri = p;
+
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
     opened = 1;
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0, &src));
 
     opened = 0;
     if(drv->close)
-- 
2.43.0


From 706ffd0b433735b1ff59e45f21a9e09bd4f18b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 069/146] fix: configuration include directives were stored
 twice

---
 srcs/toolbox/config.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 8eee0be..21bf479 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1225,6 +1225,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
             else                            /* failure is critical */
                 dbg_err_if(u_config_include(c, drv, subkey, overwrite,
                             src));
+
+            dbg_err_if(u_string_clear(lastkey));
+            continue;
         } 
 
         /* if the valus is empty an open bracket will follow, save the key */
-- 
2.43.0


From d72d7ca7df04769d5eda4c2a5e679ac76bc5ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 070/146] fix: a printed configuration key or value lost
 everything from its first hash sign on

---
 srcs/toolbox/config.c | 56 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 21bf479..3bfb177 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -59,6 +59,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
         u_config_t *inckey, int overwrite, const struct u_config_src_s *src);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
 static int u_config_to_str (u_config_t *c, u_string_t *s);
+static int u_config_append_escaped (u_string_t *s, const char *txt);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
 static int u_config_remove_comment(u_string_t *line);
 
@@ -247,6 +248,18 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
 #define U_CONFIG_INDENT(fp, l)  \
     do { int i; for(i = 1; i < l; ++i) fputs("\t", fp); } while (0);
 
+/* an unescaped '#' would start a comment */
+#define U_CONFIG_PUT_ESCAPED(fp, s) \
+    do { \
+        const char *p; \
+        for (p = s; *p != '\0'; ++p) \
+        { \
+            if (*p == '#') \
+                fputc('\\', fp); \
+            fputc(*p, fp); \
+        } \
+    } while (0);
+
     u_config_t *item;
 
     U_CONFIG_INDENT(fp, lev);
@@ -256,9 +269,12 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
      * there) */
     if (c->key && strcmp(c->key, "include"))
     {
-        fprintf(fp, "%s", c->key);
+        U_CONFIG_PUT_ESCAPED(fp, c->key);
         if (c->value != NULL) 
-            fprintf(fp, "\t%s", c->value);
+        {
+            fputs("\t", fp);
+            U_CONFIG_PUT_ESCAPED(fp, c->value);
+        }
         fputs("\n", fp);
     }
 
@@ -282,6 +298,7 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
             fprintf(fp, "}\n");
         }
     }
+#undef U_CONFIG_PUT_ESCAPED
 #undef U_CONFIG_INDENT
 }
 
@@ -1343,18 +1360,24 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(s == NULL);
 
     if(c->key && strcmp(c->key, "include"))
-        u_string_aprintf(s, "%s %s\n", c->key, (c->value ? c->value : ""));
+    {
+        dbg_err_if(u_config_append_escaped(s, c->key));
+        dbg_err_if(u_string_append(s, " ", 1));
+        if(c->value)
+            dbg_err_if(u_config_append_escaped(s, c->value));
+        dbg_err_if(u_string_append(s, "\n", 1));
+    }
     
     if(u_config_has_children(c))
     {
         if(c->parent)
-            u_string_aprintf(s, "%s", "{\n");
+            dbg_err_if(u_string_append(s, "{\n", 2));
 
         TAILQ_FOREACH(item, &c->children, np)
-            u_config_to_str(item, s);
+            dbg_err_if(u_config_to_str(item, s));
 
         if(c->parent)
-            u_string_aprintf(s, "%s", "}\n");
+            dbg_err_if(u_string_append(s, "}\n", 2));
     }
 
     return 0;
@@ -1362,6 +1385,27 @@ err:
     return ~0;
 }
 
+/* Append 'txt' to 's' escaping '#', which would start a comment otherwise */
+static int u_config_append_escaped (u_string_t *s, const char *txt)
+{
+    size_t n;
+
+    for(;;)
+    {
+        n = strcspn(txt, "#");
+        dbg_err_if(n && u_string_append(s, txt, n));
+
+        if(*(txt += n) == '\0')
+            return 0;
+
+        dbg_err_if(u_string_append(s, "\\#", 2));
+        ++txt;
+    }
+
+err:
+    return ~0;
+}
+
 static char *u_config_buf_gets (void *arg, char *buf, size_t size)
 {
     struct u_config_buf_s *g = (struct u_config_buf_s*)arg;
-- 
2.43.0


From 8336e4c3800ab19d4ff3930100f2760da971ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 071/146] fix: empty sections and keys with no value were lost
 when a configuration was printed and reloaded

---
 srcs/toolbox/config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 3bfb177..01a4779 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -280,7 +280,9 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
 
     ++lev;
 
-    if(u_config_has_children(c))
+    /* a key with neither value nor children reads back only as a section */
+    if(u_config_has_children(c) || 
+            (c->parent && (c->value == NULL || c->value[0] == '\0')))
     {
         if(c->parent)
         {
@@ -1368,7 +1370,9 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
         dbg_err_if(u_string_append(s, "\n", 1));
     }
     
-    if(u_config_has_children(c))
+    /* a key with neither value nor children reads back only as a section */
+    if(u_config_has_children(c) || 
+            (c->parent && (c->value == NULL || c->value[0] == '\0')))
     {
         if(c->parent)
             dbg_err_if(u_string_append(s, "{\n", 2));
-- 
2.43.0


From 7cbcb3127a676b6f8af6e99548d321708588155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 072/146] fix: printing a configuration repeated its optional
 include directives along with what they had included

---
 srcs/toolbox/config.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 01a4779..9837a5b 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -262,12 +262,15 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
 
     u_config_t *item;
 
-    U_CONFIG_INDENT(fp, lev);
-
     /* "include" directives are skipped since that wouldn't give semantical 
      * equivalence to the dumped object (included key/val's are already 
      * there) */
-    if (c->key && strcmp(c->key, "include"))
+    if (c->key && (!strcmp(c->key, "include") || !strcmp(c->key, "-include")))
+        return;
+
+    U_CONFIG_INDENT(fp, lev);
+
+    if (c->key)
     {
         U_CONFIG_PUT_ESCAPED(fp, c->key);
         if (c->value != NULL) 
@@ -1361,7 +1364,11 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(c == NULL);
     dbg_err_if(s == NULL);
 
-    if(c->key && strcmp(c->key, "include"))
+    /* included key/val's are already there */
+    if(c->key && (!strcmp(c->key, "include") || !strcmp(c->key, "-include")))
+        return 0;
+
+    if(c->key)
     {
         dbg_err_if(u_config_append_escaped(s, c->key));
         dbg_err_if(u_string_append(s, " ", 1));
-- 
2.43.0


From 9057a86487c7ecf75fdd57564dca7032dc11d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 073/146] fix: the tail of a password file line longer than the
 line buffer was taken for another record

---
 srcs/toolbox/pwd.c | 87 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 75 insertions(+), 12 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index c756bd1..5d2df9f 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -29,6 +29,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
         u_pwd_rec_t **prec);
 
 /* res ops */
+static int u_pwd_res_getline (u_pwd_t *pwd, u_string_t *ln, int *eof);
 static int u_pwd_res_open (u_pwd_t *pwd);
 static void u_pwd_res_close (u_pwd_t *pwd);
 
@@ -444,15 +445,20 @@ err:
 static int u_pwd_retr_res (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec)
 {
+    int eof;
     size_t lc, got_it = 0, ntoks;
-    char ln[U_PWD_LINE_MAX], uu[U_PWD_LINE_MAX];
+    char uu[U_PWD_LINE_MAX];
+    const char *ln = NULL;
     char **toks = NULL;  /* expected line fmt is: "name:password[:opaque]\n" */
     u_pwd_rec_t *rec = NULL;
+    u_string_t *line = NULL;
 
     dbg_return_if (pwd->res_uri == NULL, ~0);
     dbg_return_if (pwd->cb_load == NULL, ~0);
     /* cb_open consistency will be checked inside u_pwd_res_open */
 
+    dbg_err_if (u_string_create(NULL, 0, &line));
+
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
@@ -460,8 +466,15 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     u_snprintf(uu, sizeof uu, "%s:", user);
     
     /* read line by line */
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    for (lc = 1; ; lc++)
     {
+        dbg_err_if (u_pwd_res_getline(pwd, line, &eof));
+
+        if (eof)
+            break;
+
+        ln = u_string_c(line);
+
         /* skip comments */
         if (ln[0] == '#')
             continue;
@@ -480,10 +493,6 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* check if we've reached here due to simple loop exhaustion */
     dbg_err_ifm (!got_it, "user %s not found", user);
 
-    /* remove terminating \n if needed */
-    if (ln[strlen(ln) - 1] == '\n')
-        ln[strlen(ln) - 1] = '\0';
-
     /* tokenize line: expect at least 2 fields: user and password */
     dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
             "bad syntax at line %zu (%s)", lc, ln);
@@ -498,6 +507,8 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* dispose resource handler (if a 'close' method has been set) */
     u_pwd_res_close(pwd);
 
+    u_string_free(line);
+
     /* copy out */
     *prec = rec;
 
@@ -511,6 +522,9 @@ err:
 
     u_pwd_res_close(pwd);
 
+    if (line)
+        u_string_free(line);
+
     return ~0;
 }
 
@@ -526,6 +540,43 @@ static int u_pwd_res_open (u_pwd_t *pwd)
     return pwd->cb_open(pwd->res_uri, &pwd->res_handler);
 }
 
+/* read a whole line, which may need more than one call to the load callback;
+ * the trailing newline is removed.  *eof is set when there are no more lines */
+static int u_pwd_res_getline (u_pwd_t *pwd, u_string_t *ln, int *eof)
+{
+    enum { LAST = U_PWD_LINE_MAX - 1 };
+    char buf[U_PWD_LINE_MAX];
+    size_t len;
+    int more = 1;
+
+    dbg_err_if (u_string_clear(ln));
+
+    for (*eof = 1; more; *eof = 0)
+    {
+        /* let us know if the buffer gets filled */
+        buf[LAST - 1] = '\0', buf[LAST] = 'x';
+
+        if (pwd->cb_load(buf, sizeof buf, pwd->res_handler) == NULL)
+            break;
+
+        /* there is more if the buffer is full and the newline is missing */
+        more = (buf[LAST] == '\0' && buf[LAST - 1] != '\0' && 
+                buf[LAST - 1] != '\n');
+
+        buf[LAST] = '\0';
+        len = strlen(buf);
+
+        if (len > 0 && buf[len - 1] == '\n')
+            --len;
+
+        dbg_err_if (len && u_string_append(ln, buf, len));
+    }
+
+    return 0;
+err:
+    return ~0;
+}
+
 static void u_pwd_res_close (u_pwd_t *pwd)
 {
     nop_return_if (pwd->res_handler == NULL, );
@@ -650,20 +701,31 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
+    int eof;
     size_t lc, ntoks;
-    char ln[U_PWD_LINE_MAX];
+    const char *ln;
     char **toks = NULL;  /* line fmt is: "name:password[:hint]\n" */
     u_pwd_rec_t *rec = NULL;
+    u_string_t *line = NULL;
     
     dbg_return_if (pwd->res_uri == NULL, ~0);
     dbg_return_if (pwd->cb_load == NULL, ~0);
     /* cb_open and cb_close will be checked inside u_pwd_res_{open,close} */
 
+    dbg_err_if (u_string_create(NULL, 0, &line));
+
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    for (lc = 1; ; lc++)
     {
+        dbg_err_if (u_pwd_res_getline(pwd, line, &eof));
+
+        if (eof)
+            break;
+
+        ln = u_string_c(line);
+
         /* cleanup strtok rubbish from the previous loop */
         if (toks)
         {
@@ -675,10 +737,6 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         if (ln[0] == '#')
             continue;
 
-        /* remove trailing \n */
-        if (ln[strlen(ln) - 1] == '\n')
-            ln[strlen(ln) - 1] = '\0';
-
         /* tokenize line */
         dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
         {
@@ -712,6 +770,8 @@ static int u_pwd_db_load (u_pwd_t *pwd)
 
     u_pwd_res_close(pwd);
 
+    u_string_free(line);
+
     return 0;
 err:
     if (rec)
@@ -722,6 +782,9 @@ err:
  
     u_pwd_res_close(pwd);
 
+    if (line)
+        u_string_free(line);
+
     return ~0;
 }
 
-- 
2.43.0


From c57b0216ad19dc4bfb49ce73906efc49d01f3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:30 +0000
Subject: [PATCH 074/146] fix: a password record with an empty user or password
 field was read with its fields shifted

---
 srcs/toolbox/pwd.c | 78 +++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 5d2df9f..c585521 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -23,6 +23,7 @@ static int u_pwd_need_reload (u_pwd_t *pwd);
 /* u_pwd_rec_t */
 static int u_pwd_rec_new (const char *user, const char *pass, 
         const char *opaque, u_pwd_rec_t **prec);
+static int u_pwd_rec_parse (const char *ln, u_pwd_rec_t **prec);
 static int u_pwd_retr_mem (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec);
 static int u_pwd_retr_res (u_pwd_t *pwd, const char *user, 
@@ -446,10 +447,9 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
         u_pwd_rec_t **prec)
 {
     int eof;
-    size_t lc, got_it = 0, ntoks;
+    size_t lc, got_it = 0;
     char uu[U_PWD_LINE_MAX];
     const char *ln = NULL;
-    char **toks = NULL;  /* expected line fmt is: "name:password[:opaque]\n" */
     u_pwd_rec_t *rec = NULL;
     u_string_t *line = NULL;
 
@@ -493,16 +493,9 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* check if we've reached here due to simple loop exhaustion */
     dbg_err_ifm (!got_it, "user %s not found", user);
 
-    /* tokenize line: expect at least 2 fields: user and password */
-    dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
-            "bad syntax at line %zu (%s)", lc, ln);
-
     /* create new record */
-    dbg_err_if (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                &rec));
-
-    /* dispose u_strtok rubbish */
-    u_strtok_cleanup(toks, ntoks);
+    dbg_err_if (u_pwd_rec_parse(ln, &rec));
+    dbg_err_ifm (rec == NULL, "bad syntax at line %zu (%s)", lc, ln);
 
     /* dispose resource handler (if a 'close' method has been set) */
     u_pwd_res_close(pwd);
@@ -517,9 +510,6 @@ err:
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
-
     u_pwd_res_close(pwd);
 
     if (line)
@@ -627,6 +617,35 @@ err:
     return ~0;
 }
 
+/* line fmt is: "name:password[:opaque]", name and password can't be empty.
+ * In case of bad syntax success is returned with a NULL *prec */
+static int u_pwd_rec_parse (const char *ln, u_pwd_rec_t **prec)
+{
+    char *s = NULL, *p, *user, *pass, *opaque;
+
+    *prec = NULL;
+
+    dbg_err_sif ((s = u_strdup(ln)) == NULL);
+
+    p = s;
+    user = strsep(&p, ":");
+    pass = strsep(&p, ":");
+    opaque = strsep(&p, ":");
+
+    if (*user != '\0' && pass != NULL && *pass != '\0')
+    {
+        dbg_err_if (u_pwd_rec_new(user, pass, 
+                    (opaque && *opaque != '\0') ? opaque : NULL, prec));
+    }
+
+    u_free(s);
+
+    return 0;
+err:
+    U_FREE(s);
+    return ~0;
+}
+
 static int u_pwd_retr_mem (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec)
 {
@@ -702,9 +721,8 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
     int eof;
-    size_t lc, ntoks;
+    size_t lc;
     const char *ln;
-    char **toks = NULL;  /* line fmt is: "name:password[:hint]\n" */
     u_pwd_rec_t *rec = NULL;
     u_string_t *line = NULL;
     
@@ -726,29 +744,20 @@ static int u_pwd_db_load (u_pwd_t *pwd)
 
         ln = u_string_c(line);
 
-        /* cleanup strtok rubbish from the previous loop */
-        if (toks)
-        {
-            u_strtok_cleanup(toks, ntoks);
-            toks = NULL;
-        }
-
         /* skip comment lines */
         if (ln[0] == '#')
             continue;
 
-        /* tokenize line */
-        dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
+        /* create u_pwd_rec_t from line */
+        dbg_ifb (u_pwd_rec_parse(ln, &rec))
         {
-            u_info("bad syntax at line %zu (%s)", lc, ln);
+            u_info("could not create record for entry at line %zu", lc);
             continue;
         }
 
-        /* create u_pwd_rec_t from tokens */
-        dbg_ifb (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                    &rec))
+        dbg_ifb (rec == NULL)
         {
-            u_info("could not create record for entry at line %zu", lc);
+            u_info("bad syntax at line %zu (%s)", lc, ln);
             continue;
         }
 
@@ -762,12 +771,6 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         rec = NULL;
     }
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
- 
-    if (rec)
-        u_pwd_rec_free(pwd, rec);
-
     u_pwd_res_close(pwd);
 
     u_string_free(line);
@@ -777,9 +780,6 @@ err:
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
- 
     u_pwd_res_close(pwd);
 
     if (line)
-- 
2.43.0


From 000834ae22ca08ac72c1a961961dbb10a0e5db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:30 +0000
Subject: [PATCH 075/146] fix: the file based password lookup took user "a:b"
 for user "a" with password "b"

---
 srcs/toolbox/pwd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index c585521..7f75752 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -447,8 +447,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
         u_pwd_rec_t **prec)
 {
     int eof;
-    size_t lc, got_it = 0;
-    char uu[U_PWD_LINE_MAX];
+    size_t lc, got_it = 0, ulen;
     const char *ln = NULL;
     u_pwd_rec_t *rec = NULL;
     u_string_t *line = NULL;
@@ -462,9 +461,10 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    /* do suitable search string for strstr(3) */
-    u_snprintf(uu, sizeof uu, "%s:", user);
-    
+    /* a name with a colon in it would match other users' records */
+    dbg_err_ifm (strchr(user, ':') != NULL, "user %s not found", user);
+    ulen = strlen(user);
+
     /* read line by line */
     for (lc = 1; ; lc++)
     {
@@ -483,7 +483,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
          * this is different from using the in-memory version in case an 
          * entry is duplicated: in-memory matches the last entry, here
          * we would get the first one */
-        if (strstr(ln, uu) == ln)
+        if (!strncmp(ln, user, ulen) && ln[ulen] == ':')
         {
             got_it = 1;
             break;
-- 
2.43.0


From 828e35c5695c117572b1affd3e674bd7b4684e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:30 +0000
Subject: [PATCH 076/146] fix: authenticating against a null password instance
 crashed

---
 srcs/toolbox/pwd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 7f75752..92951ce 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -249,8 +249,9 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
 {
     int rc;
     u_pwd_rec_t *rec = NULL;
-    char *__p = NULL, __pstack[U_PWD_LINE_MAX];
+    char *__p = NULL;
 
+    dbg_return_if (pwd == NULL, ~0);
     dbg_return_if (password == NULL, ~0);
 
     /* retrieve the pwd record */
-- 
2.43.0


From 2984081436cad19e0eed29962405a314cd86e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:30 +0000
Subject: [PATCH 077/146] fix: a password longer than the line buffer was cut
 before being compared

---
 srcs/toolbox/pwd.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 92951ce..dc6c1b0 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -263,18 +263,11 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
         /* create a buffer that fits the specific hash function */
         dbg_err_if ((__p = u_zalloc(pwd->hash_len)) == NULL);
         (void) pwd->cb_hash(password, strlen(password), __p);
+        rc = strcmp(__p, rec->pass) ? ~0 : 0;
+        u_free(__p);
     }
     else
-    {
-        (void) u_strlcpy(__pstack, password, sizeof __pstack);
-        __p = __pstack;
-    }
-
-    rc = strcmp(__p, rec->pass);
-
-    /* free __p if on heap */
-    if (__p && (__p != __pstack))
-        u_free(__p);
+        rc = strcmp(password, rec->pass) ? ~0 : 0;
 
     /* rec ownership is ours only if hmap doesn't have it */
     if (!pwd->in_memory)
@@ -282,9 +275,6 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
 
     return rc;
 err:
-    if (__p && (__p != __pstack))
-        u_free(__p);
-
     if (!pwd->in_memory && rec)
         u_pwd_rec_free(pwd, rec);
 
-- 
2.43.0


From bd270ac80f107c9477002322607928dd3e9b075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:30 +0000
Subject: [PATCH 078/146] fix: the hashed password buffer had no room for the
 string terminator

---
 srcs/toolbox/pwd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index dc6c1b0..fb5a611 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -260,8 +260,8 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
     /* hash if requested, otherwise do cleartext cmp */
     if (pwd->cb_hash)
     {
-        /* create a buffer that fits the specific hash function */
-        dbg_err_if ((__p = u_zalloc(pwd->hash_len)) == NULL);
+        /* create a buffer that fits the specific hash function (plus \0) */
+        dbg_err_if ((__p = u_zalloc(pwd->hash_len + 1)) == NULL);
         (void) pwd->cb_hash(password, strlen(password), __p);
         rc = strcmp(__p, rec->pass) ? ~0 : 0;
         u_free(__p);
-- 
2.43.0


From 62a89abe9ca46c0e5f6353d0eb03d4c245a2cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:30 +0000
Subject: [PATCH 079/146] fix: every load of an in-memory password database
 leaked the map options

---
 srcs/toolbox/pwd.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index fb5a611..d712467 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -689,8 +689,12 @@ static int u_pwd_db_new (u_pwd_t *pwd)
 
     dbg_err_if (u_hmap_opts_new(&hopts));
     dbg_err_if (u_hmap_opts_set_val_freefunc(hopts, &__hmap_pwd_rec_free));
-            
-    return u_hmap_easy_new(hopts, &pwd->db);
+    dbg_err_if (u_hmap_easy_new(hopts, &pwd->db));
+
+    /* the map has got its own copy */
+    u_hmap_opts_free(hopts);
+
+    return 0;
 err:
     if (hopts)
         u_hmap_opts_free(hopts);
-- 
2.43.0


From 6bfbc93315530f9eb2b663a1fafe4ae67c2260c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 080/146] fix: a malformed line hid the record of the same user
 from the file based password lookup

---
 srcs/toolbox/pwd.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index d712467..926be2f 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -476,6 +476,15 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
          * we would get the first one */
         if (!strncmp(ln, user, ulen) && ln[ulen] == ':')
         {
+            /* create new record, ignoring the line in case of bad syntax */
+            dbg_err_if (u_pwd_rec_parse(ln, &rec));
+
+            if (rec == NULL)
+            {
+                u_info("bad syntax at line %zu (%s)", lc, ln);
+                continue;
+            }
+
             got_it = 1;
             break;
         }
@@ -484,10 +493,6 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* check if we've reached here due to simple loop exhaustion */
     dbg_err_ifm (!got_it, "user %s not found", user);
 
-    /* create new record */
-    dbg_err_if (u_pwd_rec_parse(ln, &rec));
-    dbg_err_ifm (rec == NULL, "bad syntax at line %zu (%s)", lc, ln);
-
     /* dispose resource handler (if a 'close' method has been set) */
     u_pwd_res_close(pwd);
 
-- 
2.43.0


From 6dd8b1a11dae1af47373422f819bec629fdb7855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 081/146] fix: a failed reload of an in-memory password
 database lost the previous snapshot and was not retried

---
 srcs/toolbox/pwd.c | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 926be2f..48b7b8f 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -418,19 +418,27 @@ int u_pwd_in_memory (u_pwd_t *pwd)
 
 static int u_pwd_load (u_pwd_t *pwd)
 {
+    u_hmap_t *old;
+
     dbg_return_if (pwd == NULL, ~0);
     dbg_return_if (!pwd->in_memory, ~0);
 
-    /* wipe away old snapshot */
-    if (pwd->db)
-        (void) u_pwd_db_term(pwd);
-    
+    /* keep the old snapshot until the new one is complete */
+    old = pwd->db;
+    pwd->db = NULL;
+
     /* create new hash map and load master db contents into it */
     dbg_err_if (u_pwd_db_new(pwd));
     dbg_err_if (u_pwd_db_load(pwd));
 
+    /* wipe away old snapshot */
+    if (old)
+        u_hmap_easy_free(old);
+
     return 0;
 err:
+    (void) u_pwd_db_term(pwd);
+    pwd->db = old;
     return ~0;
 }
 
@@ -679,11 +687,15 @@ static int u_pwd_need_reload (u_pwd_t *pwd)
     if (!pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
         return 0;
 
-    /* update notified: set .last_mod */
-    pwd->last_mod = update_timestamp;
-    
     /* reload db to memory */
-    return u_pwd_load(pwd);
+    dbg_err_if (u_pwd_load(pwd));
+
+    /* update done: set .last_mod */
+    pwd->last_mod = update_timestamp;
+
+    return 0;
+err:
+    return ~0;
 }
 
 static int u_pwd_db_new (u_pwd_t *pwd)
@@ -720,7 +732,7 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
-    int eof;
+    int eof, rc;
     size_t lc;
     const char *ln;
     u_pwd_rec_t *rec = NULL;
@@ -749,11 +761,8 @@ static int u_pwd_db_load (u_pwd_t *pwd)
             continue;
 
         /* create u_pwd_rec_t from line */
-        dbg_ifb (u_pwd_rec_parse(ln, &rec))
-        {
-            u_info("could not create record for entry at line %zu", lc);
-            continue;
-        }
+        dbg_err_ifm (u_pwd_rec_parse(ln, &rec),
+                "could not create record for entry at line %zu", lc);
 
         dbg_ifb (rec == NULL)
         {
@@ -762,10 +771,13 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         }
 
         /* push rec to db */
-        dbg_ifb (u_pwd_db_push(pwd, rec))
+        dbg_ifb ((rc = u_pwd_db_push(pwd, rec)))
         {
-            u_info("could not push record for entry at line %zu", lc);
-            u_pwd_rec_free(pwd, rec), rec = NULL;
+            dbg_err_ifm (rc != U_HMAP_ERR_EXISTS,
+                    "could not push record for entry at line %zu", lc);
+
+            u_info("duplicate record at line %zu", lc);
+            u_pwd_rec_free(pwd, rec);
         }
 
         rec = NULL;
-- 
2.43.0


From 8a07f141a2f978be8e5ca57b191d0d76e0d2847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 082/146] fix: an in-memory password database with no notify
 callback was never loaded

---
 srcs/toolbox/pwd.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 48b7b8f..4230d42 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -679,12 +679,15 @@ static int u_pwd_need_reload (u_pwd_t *pwd)
 {
     time_t update_timestamp;
 
-    /* if needed parameters are not set return immediately (no error) */
+    /* nothing to do if there's no snapshot */
     nop_return_if (!pwd->in_memory, 0);
-    nop_return_if (pwd->cb_notify == NULL, 0);
 
-    /* in case no update has been notified return */
-    if (!pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
+    /* in case no update has been (or can be) notified return, unless there is
+     * nothing loaded yet */
+    update_timestamp = pwd->last_mod;
+
+    if ((pwd->cb_notify == NULL || !pwd->cb_notify(pwd->res_uri, pwd->last_mod,
+                    &update_timestamp)) && pwd->db != NULL)
         return 0;
 
     /* reload db to memory */
-- 
2.43.0


From e95a2bd29936fa2de4eba06b1e3fabe2b4db7903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 083/146] fix: a read error while loading a password file was
 taken for its end

---
 srcs/toolbox/pwd.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 4230d42..27dec44 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -551,7 +551,12 @@ static int u_pwd_res_getline (u_pwd_t *pwd, u_string_t *ln, int *eof)
         buf[LAST - 1] = '\0', buf[LAST] = 'x';
 
         if (pwd->cb_load(buf, sizeof buf, pwd->res_handler) == NULL)
+        {
+            /* tell read errors from end-of-file, when possible */
+            dbg_err_if (pwd->cb_load == __file_load &&
+                    ferror((FILE *) pwd->res_handler));
             break;
+        }
 
         /* there is more if the buffer is full and the newline is missing */
         more = (buf[LAST] == '\0' && buf[LAST - 1] != '\0' && 
-- 
2.43.0


From e4494455461afed9f83e9e87d91e2930fe63b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:27 +0000
Subject: [PATCH 084/146] fix: freeing a record retrieved from an in-memory
 password database, as documented, corrupted the database

---
 srcs/toolbox/pwd.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 27dec44..b91c465 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -269,13 +269,11 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
     else
         rc = strcmp(password, rec->pass) ? ~0 : 0;
 
-    /* rec ownership is ours only if hmap doesn't have it */
-    if (!pwd->in_memory)
-        u_pwd_rec_free(pwd, rec);
+    u_pwd_rec_free(pwd, rec);
 
     return rc;
 err:
-    if (!pwd->in_memory && rec)
+    if (rec)
         u_pwd_rec_free(pwd, rec);
 
     return ~0;
@@ -328,8 +326,7 @@ int u_pwd_init_file (const char *res_uri, u_pwd_hash_cb_t cb_hash,
  *  \brief  Dispose a ::u_pwd_rec_t object 
  *
  *  Dispose the supplied ::u_pwd_rec_t object \p rec.  It MUST be called
- *  on ::u_pwd_rec_t records returned from ::u_pwd_retr when using "in memory" 
- *  pwd instances (for non "in memory" pwd's the function is a NOP)
+ *  on ::u_pwd_rec_t records returned from ::u_pwd_retr
  *
  *  \param  pwd     the pwd instance which owns \p rec
  *  \param  rec     the pwd_rec record to be disposed
@@ -673,7 +670,8 @@ static int u_pwd_retr_mem (u_pwd_t *pwd, const char *user,
     pr = (u_pwd_rec_t *) u_hmap_easy_get(pwd->db, user);
     dbg_err_if (pr == NULL);
 
-    *prec = pr;
+    /* the snapshot keeps its record: the user gets (and frees) a copy */
+    dbg_err_if (u_pwd_rec_new(pr->user, pr->pass, pr->opaque, prec));
 
     return 0;
 err:
-- 
2.43.0


From fea5b9e571098eb12524e9352b52e7e4137daf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 085/146] fix: a duplicate user in an in-memory password
 database was freed twice

---
 srcs/toolbox/pwd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index b91c465..43364f7 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -782,8 +782,8 @@ static int u_pwd_db_load (u_pwd_t *pwd)
             dbg_err_ifm (rc != U_HMAP_ERR_EXISTS,
                     "could not push record for entry at line %zu", lc);
 
+            /* the map has already disposed of 'rec' */
             u_info("duplicate record at line %zu", lc);
-            u_pwd_rec_free(pwd, rec);
         }
 
         rec = NULL;
-- 
2.43.0


From f47714d5ebe0fe5a3bb19a747c47e0747ff314ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 086/146] fix: a failed creation of a hash map leaked its
 options

---
 srcs/toolbox/hmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 37690c9..0d985b8 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -597,6 +597,8 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     return U_HMAP_ERR_NONE;
 
 err:
+    if (c->opts)
+        u_hmap_opts_free(c->opts);
     u_free(c);
     *phmap = NULL;
     return U_HMAP_ERR_FAIL;
-- 
2.43.0


From bd0c61497adb8a1550a84939e5aa78914c6d36d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 087/146] fix: a failed hash map resize leaked memory and
 skipped a size at the next attempt

---
 srcs/toolbox/hmap.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 0d985b8..740e592 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -2121,9 +2121,10 @@ static int __resize(u_hmap_t *hmap)
     u_hmap_opts_t *newopts = NULL;
     u_hmap_t *newmap = NULL;
     u_hmap_o_t *obj;
-    size_t i;
+    size_t i, px;
 
-    dbg_err_if (hmap == NULL);
+    dbg_return_if (hmap == NULL, ~0);
+    px = hmap->px;
 
     if (hmap->opts->policy != U_HMAP_PCY_NONE)
         return 0;
@@ -2140,6 +2141,7 @@ static int __resize(u_hmap_t *hmap)
             &hmap->px));
     dbg_err_if (u_hmap_new(newopts, &newmap));
     u_hmap_opts_free(newopts);
+    newopts = NULL;
 
     /* remove any ownership from old map to copy elements */
     hmap->opts->options &= !U_HMAP_OPTS_OWNSDATA;
@@ -2164,6 +2166,8 @@ static int __resize(u_hmap_t *hmap)
 
     return 0;
 err:
+    U_FREEF(newopts, u_hmap_opts_free);
+    hmap->px = px;
     return ~0;
 }
 
-- 
2.43.0


From 93f7b1c29c25ea6f523141fc1d42a693ab0afb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 088/146] fix: a hash map object leaked its key when its value
 could not be copied

---
 srcs/toolbox/hmap.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 740e592..d7d8f9b 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -126,6 +126,7 @@ static int __pcy_setup (u_hmap_t *hmap);
 static const char *__pcy2str(u_hmap_pcy_type_t policy);
 
 static void __o_free (u_hmap_t *hmap, u_hmap_o_t *obj);
+static void __o_discard (u_hmap_t *hmap, u_hmap_o_t *obj);
 static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
         u_hmap_o_t **old);
 
@@ -939,7 +940,8 @@ u_hmap_o_t *u_hmap_o_new (u_hmap_t *hmap, const void *key, const void *val)
     return obj;
 
 err:
-    U_FREEF(obj, u_hmap_o_free);
+    if (obj)
+        __o_discard(hmap, obj);
 
     return NULL;
 }
@@ -974,6 +976,22 @@ void *u_hmap_o_get_val (u_hmap_o_t *obj)
     return obj->val;
 }
 
+/* Free a data object along with what has been internalised, i.e. leave alone
+ * keys and values supplied by the user as pointers */
+static void __o_discard (u_hmap_t *hmap, u_hmap_o_t *obj)
+{
+    if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
+    {
+        if (hmap->opts->key_type != U_HMAP_OPTS_DATATYPE_POINTER)
+            u_free(obj->key);
+
+        if (hmap->opts->val_type != U_HMAP_OPTS_DATATYPE_POINTER)
+            u_free(obj->val);
+    }
+
+    u_hmap_o_free(obj);
+}
+
 /* Free a data object including content (only if U_HMAP_OPTS_OWNSDATA) */
 static void __o_free (u_hmap_t *hmap, u_hmap_o_t *obj)
 {
-- 
2.43.0


From e6396d2874ef950a01b0eb6003c91643ddc06b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 089/146] fix: a failed insertion in a hash map left the
 element half inserted or leaked it

---
 srcs/toolbox/hmap.c | 84 ++++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 28 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index d7d8f9b..ffbf5fd 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -30,6 +30,7 @@ struct u_hmap_q_s
 {
     u_hmap_o_t *ho;     /**< reference to hmap object */
     void *data;         /**< internal policy data */
+    int queued;         /**< true if already in the queue */
 
     TAILQ_ENTRY(u_hmap_q_s) next;
 };
@@ -129,8 +130,9 @@ static void __o_free (u_hmap_t *hmap, u_hmap_o_t *obj);
 static void __o_discard (u_hmap_t *hmap, u_hmap_o_t *obj);
 static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
         u_hmap_o_t **old);
+static int __put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old);
 
-static u_hmap_q_t *__q_o_new (u_hmap_o_t *ho);
+static u_hmap_q_t *__q_o_new (u_hmap_t *hmap, u_hmap_o_t *ho);
 static void __q_o_free (u_hmap_q_t *s);
 
 static size_t __f_hash (const void *key, size_t size);
@@ -679,6 +681,25 @@ void u_hmap_free (u_hmap_t *hmap)
  * \retval  U_HMAP_ERR_FAIL     on other failures
  */
 int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
+{
+    int rc;
+
+    dbg_err_if (hmap == NULL);
+    dbg_err_if (obj == NULL);
+
+    rc = __put(hmap, obj, old);
+
+    /* objects belong to the hmap also when they could not be inserted */
+    if (rc == U_HMAP_ERR_FAIL && (hmap->opts->options & U_HMAP_OPTS_OWNSDATA))
+        __o_discard(hmap, obj);
+
+    return rc;
+err:
+    return U_HMAP_ERR_FAIL;
+}
+
+/* Insert an object: in case of failure nothing changes, obj included */
+static int __put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 {
     u_hmap_o_t *o;
     u_hmap_e_t *x;
@@ -687,9 +708,6 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
     size_t hash;
     size_t i;
 
-    dbg_err_if (hmap == NULL);
-    dbg_err_if (obj == NULL);
-
     if (old)
         *old = NULL;
 
@@ -697,6 +715,10 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
             hmap->opts->policy == U_HMAP_PCY_NONE)
         dbg_err_if (__resize(hmap));
 
+    /* get what is needed to enqueue the object before changing anything */
+    if ((hmap->pcy.ops & U_HMAP_PCY_OP_PUT) && obj->pqe == NULL)
+        dbg_err_if ((obj->pqe = __q_o_new(hmap, obj)) == NULL);
+
     hash = __hash(hmap, obj->key);
 
     x = &hmap->hmap[hash];
@@ -765,12 +787,14 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
                     hmap->opts->policy != U_HMAP_PCY_NONE)
             {
                 dbg_err_if (hmap->pcy.pop(hmap, old));
-                return u_hmap_put(hmap, obj, NULL);
+                return __put(hmap, obj, NULL);
             }
             break;
     }
 
 err:
+    __q_o_free(obj->pqe);
+    obj->pqe = NULL;
     return U_HMAP_ERR_FAIL;
 
 end:
@@ -1059,6 +1083,9 @@ static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
     }
     else  /* don't overwrite */
     {
+        __q_o_free(obj->pqe);
+        obj->pqe = NULL;
+
         if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
             __o_free(hmap, obj);
         else
@@ -1717,18 +1744,16 @@ err:
 static int __queue_push (u_hmap_t *hmap, u_hmap_o_t *obj,
         u_hmap_q_t **data)
 {
-    u_hmap_q_t *new;
-
     dbg_err_if (hmap == NULL);
     dbg_err_if (obj == NULL);
     dbg_err_if (data == NULL);
+    dbg_err_if (*data == NULL);
 
-    if (*data == NULL)
-    {  /* no existing reference to queue entry -> push to head
+    if (!(*data)->queued)
+    {  /* not in the queue yet -> push to head
           (FIFO will always enter here) */
-        dbg_err_if ((new = __q_o_new(obj)) == NULL);
-        TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
-        *data = new;
+        TAILQ_INSERT_HEAD(&hmap->pcy.queue, *data, next);
+        (*data)->queued = 1;
     } else {
         /* we already have an element in the queue -> move to head
            (LRU will enter here for all ops after first insert) */
@@ -1745,23 +1770,21 @@ err:
 static int __queue_push_count (u_hmap_t *hmap, u_hmap_o_t *obj,
         u_hmap_q_t **counts)
 {
-    u_hmap_q_t *new, *q;
+    u_hmap_q_t *q;
     int *count;
 
     dbg_err_if (hmap == NULL);
     dbg_err_if (obj == NULL);
     dbg_err_if (counts == NULL);
+    dbg_err_if (*counts == NULL);
 
-    if (*counts == NULL)
+    if (!(*counts)->queued)
     {
-        /* no reference to queue entry -> count == 0 */
-        dbg_err_if ((new = __q_o_new(obj)) == NULL);
-        TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
-        dbg_err_sif ((count = (int *) u_zalloc(sizeof(int))) == NULL);
-        new->data = (void *) count;
-        *counts = new;
+        /* not in the queue yet -> count == 0 */
+        TAILQ_INSERT_HEAD(&hmap->pcy.queue, *counts, next);
+        (*counts)->queued = 1;
         /*
-        u_dbg(">k: %s, p: %d", new->ho->key, *((int *)new->data));
+        u_dbg(">k: %s, p: %d", (*counts)->ho->key, *((int *)(*counts)->data));
         */
     }
     else
@@ -1801,11 +1824,10 @@ static int __queue_push_cmp (u_hmap_t *hmap, u_hmap_o_t *obj,
     dbg_err_if (hmap == NULL);
     dbg_err_if (obj == NULL);
     dbg_err_if (data == NULL);
+    dbg_err_if ((new = *data) == NULL);
 
-    /* no internal policy object should exist since it is managed externally */
-    dbg_err_if (*data != NULL);
-
-    dbg_err_if ((new = __q_o_new(obj)) == NULL);
+    /* the position in the queue is never changed */
+    dbg_err_if (new->queued);
 
     if (TAILQ_EMPTY(&hmap->pcy.queue))
     {
@@ -1826,7 +1848,7 @@ static int __queue_push_cmp (u_hmap_t *hmap, u_hmap_o_t *obj,
             TAILQ_INSERT_TAIL(&hmap->pcy.queue, new, next);
     }
 
-    *data = new;
+    new->queued = 1;
 
     return U_HMAP_ERR_NONE;
 err:
@@ -2033,10 +2055,11 @@ err:
 }
 
 /* Allocate a new queue data object */
-static u_hmap_q_t *__q_o_new (u_hmap_o_t *ho)
+static u_hmap_q_t *__q_o_new (u_hmap_t *hmap, u_hmap_o_t *ho)
 {
     u_hmap_q_t *qo = NULL;
 
+    dbg_return_if (hmap == NULL, NULL);
     dbg_return_if (ho == NULL, NULL);
 
     dbg_err_sif ((qo = (u_hmap_q_t *)
@@ -2044,6 +2067,11 @@ static u_hmap_q_t *__q_o_new (u_hmap_o_t *ho)
 
     qo->ho = ho;
     qo->data = NULL;
+    qo->queued = 0;
+
+    /* LFU keeps a counter */
+    if (hmap->opts->policy == U_HMAP_PCY_LFU)
+        dbg_err_sif ((qo->data = u_zalloc(sizeof(int))) == NULL);
 
     return qo;
 err:
@@ -2054,7 +2082,7 @@ err:
 /* Free a data queue object */
 static void __q_o_free (u_hmap_q_t *qo)
 {
-    dbg_ifb (qo == NULL) return;
+    nop_return_if (qo == NULL, );
 
     if (qo->data)
         u_free(qo->data);
-- 
2.43.0


From 67d52bb04deea6cf62bf812e375c013c6d35ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 090/146] fix: an element that could not be moved to the other
 hash map was lost

---
 srcs/toolbox/hmap.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index ffbf5fd..0b8f0c3 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1568,7 +1568,9 @@ const char *u_hmap_strerror (u_hmap_ret_t rc)
 int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
 {
     u_hmap_o_t *obj;
+    u_hmap_q_t *q, *nextq = NULL;
     size_t i;
+    int rc;
 
     dbg_err_if (to == NULL);
     dbg_err_if (from == NULL);
@@ -1578,11 +1580,34 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
         while ((obj = LIST_FIRST(&from->hmap[i])) != NULL)
         {
             LIST_REMOVE(obj, next);
-            if (obj->pqe)
-                dbg_err_if (__queue_del(from, obj));
+            if ((q = obj->pqe) != NULL)
+            {
+                nextq = TAILQ_NEXT(q, next);
+                TAILQ_REMOVE(&from->pcy.queue, q, next);
+                obj->pqe = NULL;
+            }
             from->sz--;
             obj->hmap = to;
-            dbg_err_if (u_hmap_put(to, obj, NULL));
+
+            if ((rc = __put(to, obj, NULL)) == U_HMAP_ERR_FAIL)
+            {
+                /* put it back where it was */
+                LIST_INSERT_HEAD(&from->hmap[i], obj, next);
+                obj->hmap = from;
+                from->sz++;
+
+                if ((obj->pqe = q) != NULL)
+                {
+                    if (nextq)
+                        TAILQ_INSERT_BEFORE(nextq, q, next);
+                    else
+                        TAILQ_INSERT_TAIL(&from->pcy.queue, q, next);
+                }
+            }
+            else
+                __q_o_free(q);
+
+            dbg_err_if (rc);
         }
     }
 
-- 
2.43.0


From 795a35d8d7e1b88c72719046bd8d49d00cea3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 091/146] fix: a log message of exactly the maximum length
 loses its last character

---
 srcs/toolbox/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index d7877c7..d90dcff 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -107,7 +107,7 @@ static int u_log(int fac, int level, const char *fmt, ...)
 
     if(hook)
     {
-        if(vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap) > U_MAX_LOG_LENGTH)
+        if(vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap) >= U_MAX_LOG_LENGTH)
         {
             va_end(ap);
             u_log_unlock();
-- 
2.43.0


From 677f9ff874a1213f609ec528a8821fd8d11cfd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 092/146] fix: u_log_write_ex reports success for a message it
 has dropped

---
 srcs/toolbox/log.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index d90dcff..9b0c86f 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -172,14 +172,14 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
 
     /* ok, send the msg to the logger */
     if(flags & LOG_WRITE_FLAG_CTX)
-        u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
                u_log_label(lev), getpid(), file, line, func, msg, errmsg);
     else
-        u_log(fac, lev, "[%s][%d:::] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:::] %s %s", 
                u_log_label(lev), getpid(), msg, errmsg);
 
     restore_errno(savederr);
-    return 0;
+    return rc;
 err:
     restore_errno(savederr);
     return ~0;
-- 
2.43.0


From 25c2035ea588e64f0efca5374fa5adf2fe95390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 093/146] fix: crit_goto_if and crit_strerror do not compile

---
 include/toolbox/carpal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/toolbox/carpal.h b/include/toolbox/carpal.h
index de65df5..a6cc66c 100644
--- a/include/toolbox/carpal.h
+++ b/include/toolbox/carpal.h
@@ -471,8 +471,8 @@ extern "C" {
 #define crit_err_sifm(expr, ...)        msg_err_sifm(crit_, expr, __VA_ARGS__)
 #define crit_err_rcif(expr, ...)        msg_err_rcif(crit_, expr, __VA_ARGS__)
 
-#define crit_goto_if(expr, gt)          msg_goto_if(crit, expr, gt)
-#define crit_strerror(err)              msg_strerror(crit, err)
+#define crit_goto_if(expr, gt)          msg_goto_if(crit_, expr, gt)
+#define crit_strerror(err)              msg_strerror(crit_, err)
 
 /* err_ macros */
 #define u_err(...)                      msg(err_, 0, __VA_ARGS__)
-- 
2.43.0


From a2c2d5ff53e9aeb3b27b8094c6f4699048c018de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 094/146] fix: the strerror macros log errno instead of the
 given error number

---
 include/toolbox/carpal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/toolbox/carpal.h b/include/toolbox/carpal.h
index a6cc66c..a350de5 100644
--- a/include/toolbox/carpal.h
+++ b/include/toolbox/carpal.h
@@ -368,7 +368,7 @@ extern "C" {
         if(u_strerror_r(en, _eb, _DBG_BUFSZ)) {                     \
             msg(label, 0, "strerror_r(%d, ...) failed", en);        \
         } else {                                                    \
-            msg(label, 0, "errno: %d (%s)", errno, _eb);            \
+            msg(label, 0, "errno: %d (%s)", en, _eb);            \
         }                                                           \
     } while(0)  
 #endif /* OS_WIN */
-- 
2.43.0


From 904d8b349c72f9715dcd8cdc841dad475a6089a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 095/146] fix: die_if uses the text of its condition as a
 format string

---
 include/toolbox/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/toolbox/log.h b/include/toolbox/log.h
index 6e2dbb8..5e40061 100644
--- a/include/toolbox/log.h
+++ b/include/toolbox/log.h
@@ -246,7 +246,7 @@ int u_log_set_hook(u_log_hook_t hook, void *arg, u_log_hook_t *old, void**parg);
 #define die(ecode, ...) u_log_die(ecode, facility, 1, 0, __VA_ARGS__)
 
 /** \brief calls die() if \e expr is true */
-#define die_if(expr) if(expr) die(EXIT_FAILURE, #expr)
+#define die_if(expr) if(expr) die(EXIT_FAILURE, "%s", #expr)
 
 /** \brief same as u_log_emerg but using the facility global variable */
 #define emerg_( err, ...) u_log_emerg(facility, 1, err, __VA_ARGS__)
-- 
2.43.0


From d86ea45838974ec3083b38069dabae1103925780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 096/146] fix: a connect with timeout that succeeds at once
 leaves the socket non-blocking

---
 srcs/toolbox/net.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ee1f962..0f0f96c 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -520,7 +520,8 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
      * instead a rather convoluted select() based machinery must be put in
      * place.  Anyway, since the timeout'ed version shares the same code layout
      * we can kill two birds with one stone... */
-    nop_return_if ((rc = connect(sd, addr, addrlen)) == 0, 0);
+    if ((rc = connect(sd, addr, addrlen)) == 0)
+        goto end;
     dbg_err_sif (errno != EINTR && errno != EINPROGRESS);
 
     /* "When the connection has been established asynchronously, select() and 
@@ -578,6 +579,7 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         warn_err("error detected on socket %d: %s", sd, strerror(errno));
     }
 
+end:
     if (timeout)
         (void) u_net_unset_nonblocking(sd);
 
-- 
2.43.0


From d0fe11357bdef39b2f5db936f4436f6e393b7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 097/146] fix: a connect with timeout makes a non-blocking
 socket blocking

---
 srcs/toolbox/net.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 0f0f96c..d3d81bb 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -46,6 +46,7 @@ static void ai_free (u_addrinfo_t *ai);
 static int sctp_enable_events (int s, int opts);
 #endif  /* !NO_SCTP */
 static int bind_reuse_addr (int s);
+static int is_nonblocking (int s);
 
 /* low level resolvers */
 static int do_resolv (
@@ -496,7 +497,7 @@ int u_connect (int sd, const struct sockaddr *addr, u_socklen_t addrlen)
 int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         struct timeval *timeout)
 {
-    int rc;
+    int rc, reset_nb = 0;
     u_socklen_t rc_len = sizeof rc;
     struct timeval tstart, tcopy, *ptcopy = timeout ? &tcopy : NULL;
     fd_set writefds;
@@ -507,6 +508,8 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
 
     if (timeout)
     {
+        /* The original blocking mode is restored on exit. */
+        reset_nb = !is_nonblocking(sd);
         dbg_err_if (u_net_set_nonblocking(sd));
         dbg_err_sif (gettimeofday(&tstart, NULL) == -1);
     }
@@ -580,12 +583,12 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
     }
 
 end:
-    if (timeout)
+    if (reset_nb)
         (void) u_net_unset_nonblocking(sd);
 
     return 0;
 err:
-    if (timeout)
+    if (reset_nb)
         (void) u_net_unset_nonblocking(sd);
 
     return (errno == ETIMEDOUT) ? -2 : -1;
@@ -950,6 +953,19 @@ err:
     return -1;
 }
 
+/* tell if the supplied descriptor is in non-blocking mode */
+static int is_nonblocking (int s)
+{
+#ifdef HAVE_FCNTL
+    int flags;
+
+    return ((flags = fcntl(s, F_GETFL, 0)) != -1 && (flags & O_NONBLOCK));
+#else
+    u_unused_args(s);
+    return 0;
+#endif  /* HAVE_FCNTL */
+}
+
 /* change the rules used in validating addresses supplied in a bind(2) call 
  * so that reuse of local addresses is allowed */
 static int bind_reuse_addr (int s)
-- 
2.43.0


From 3bca63e192bc33e58231c43622b69628850a7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 098/146] fix: an interrupted connect consumes the caller's
 timeout, so that the next address is not tried for as long

---
 srcs/toolbox/net.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index d3d81bb..6bc2aa1 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -479,9 +479,7 @@ int u_connect (int sd, const struct sockaddr *addr, u_socklen_t addrlen)
  *  \brief  timeouted connect(2) wrapper that handles \c EINTR
  *
  *  Timeouted connect(2) wrapper that handles \c EINTR.
- *  In case the underlying select(2) is interrupted by a trapped signal, 
- *  the object pointed to by the \p timeout argument may be modified, so it's 
- *  safer to explicitly reinitialize it for any subsequent use.
+ *  The object pointed to by the \p timeout argument is not modified.
  *
  *  \param  sd      socket descriptor
  *  \param  addr    address of the peer
@@ -499,7 +497,7 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
 {
     int rc, reset_nb = 0;
     u_socklen_t rc_len = sizeof rc;
-    struct timeval tstart, tcopy, *ptcopy = timeout ? &tcopy : NULL;
+    struct timeval tstart, tleft, tcopy, *ptcopy = timeout ? &tcopy : NULL;
     fd_set writefds;
 
     dbg_return_if (sd < 0, -1);
@@ -512,6 +510,7 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         reset_nb = !is_nonblocking(sd);
         dbg_err_if (u_net_set_nonblocking(sd));
         dbg_err_sif (gettimeofday(&tstart, NULL) == -1);
+        tleft = *timeout;
     }
    
     /* Open Group Base Specifications:
@@ -538,10 +537,10 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         /* On Linux, select() also modifies timeout if the call is 
          * interrupted by a signal handler (i.e., the EINTR error return).
          * We have to take care of this non-POSIX Linux feature by making a 
-         * copy of the original timeout value, so that, on EINTR, it can be 
+         * copy of the residual timeout value, so that, on EINTR, it can be 
          * correctly re-computed by update_timeout(). */
         if (timeout)
-            tcopy = *timeout;
+            tcopy = tleft;
 
         /* Try repeatedly to select the socket descriptor for a write 
          * condition to happen. */
@@ -562,10 +561,10 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         /* When interrupted, recalculate timeout value. */
         if (timeout)
         {
-            dbg_err_if (update_timeout(timeout, &tstart));
+            dbg_err_if (update_timeout(&tleft, &tstart));
 
             /* Handle corner case. */
-            if (timeout->tv_sec < 0)
+            if (tleft.tv_sec < 0)
             {
                 errno = ETIMEDOUT;
                 dbg_err("negative timeout on socket %d.", sd);
-- 
2.43.0


From 10e7cfb7d6440b2bf6a1d1d661637ca0a512ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 099/146] fix: waiting for a connection on a descriptor beyond
 FD_SETSIZE writes outside the descriptor set

---
 srcs/toolbox/net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 6bc2aa1..3846d6b 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -529,6 +529,8 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
     /* "When the connection has been established asynchronously, select() and 
      *  poll() shall indicate that the file descriptor for the socket is ready 
      *  for writing." */
+    dbg_err_ifm (sd >= FD_SETSIZE, "socket %d is too big for select(2)", sd);
+
     FD_ZERO(&writefds);
     FD_SET(sd, &writefds);
 
-- 
2.43.0


From 73bcc523f9946d882b98e42fdc064f028e4eaa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 100/146] fix: u_net_sd_by_addr_ex does not return -1 for a
 missing address

---
 srcs/toolbox/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 3846d6b..da25823 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -278,7 +278,7 @@ err:
  */ 
 int u_net_sd_by_addr_ex (u_net_addr_t *a, struct timeval *timeout)
 {
-    dbg_return_if (a == NULL, ~1);
+    dbg_return_if (a == NULL, -1);
 
     switch (a->mode)
     {
-- 
2.43.0


From 1204556fec1170a2e90af0cabc6ddcfcb1f8d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 101/146] fix: port numbers beyond 65535 wrap around, missing
 ones are taken as ephemeral

---
 srcs/toolbox/net.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index da25823..60a451f 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1221,7 +1221,7 @@ static void ai_free (u_addrinfo_t *ai)
 static int ai_resolv (const char *host, const char *port, const char *path,
         int family, int type, int proto, int passive, u_addrinfo_t **pai)
 {
-    int e;
+    int e, i_port;
     const char *hostname, *servname;
     struct addrinfo hints, *ai = NULL;
 
@@ -1245,6 +1245,11 @@ static int ai_resolv (const char *host, const char *port, const char *path,
     hostname = !strcmp(host, "*") ? NULL : host;
     servname = !strcmp(port, "*") ? NULL : port;
 
+    /* getaddrinfo() is free to wrap around an out of range port number */
+    if (strspn(port, "0123456789") == strlen(port))
+        dbg_err_ifm (u_atoi(port, &i_port) || i_port > 65535, 
+                "%s out of range", port);
+
     memset(&hints, 0, sizeof hints);
 
     hints.ai_flags = passive ? AI_PASSIVE : 0;
-- 
2.43.0


From eaa5a909ee0daef2baea6ca01406ab4a4afaea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 102/146] fix: a wildcard host with a wildcard port is refused

---
 srcs/toolbox/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 60a451f..564a3fc 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1243,7 +1243,7 @@ static int ai_resolv (const char *host, const char *port, const char *path,
      * Handle '*' for both host and port.
      */
     hostname = !strcmp(host, "*") ? NULL : host;
-    servname = !strcmp(port, "*") ? NULL : port;
+    servname = !strcmp(port, "*") ? (hostname ? NULL : "0") : port;
 
     /* getaddrinfo() is free to wrap around an out of range port number */
     if (strspn(port, "0123456789") == strlen(port))
-- 
2.43.0


From e2a2c577d67936164316e738340919050976c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 103/146] fix: the wildcard port is refused by the URI parser

---
 srcs/toolbox/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 1815b59..1d4574e 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -486,7 +486,7 @@ err:
 }
 
 /* Much more relaxed than requested: we want to let service names, not just
- * port numbers.  See /etc/services. */
+ * port numbers.  See /etc/services.  Also, '*' is the ephemeral port. */
 static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
 {
     char c;
@@ -499,7 +499,7 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    while (isalnum((int) c) || c == '_' || c == '-' || c == '.')
+    while (isalnum((int) c) || c == '_' || c == '-' || c == '.' || c == '*')
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-- 
2.43.0


From f70e60e9480e24cdacbe97fdc2cb686dd798ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 104/146] fix: a UNIX socket URI without a path is bound to an
 unrelated address

---
 srcs/toolbox/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 564a3fc..7d70416 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1169,7 +1169,7 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
 
     u_unused_args(dummy1, dummy2);
 
-    dbg_return_if (path == NULL, ~0);
+    dbg_return_if (path == NULL || *path == '\0', ~0);
     dbg_return_if (ai == NULL, ~0);
 
     dbg_err_sif ((sunix = u_zalloc(sizeof *sunix)) == NULL);
-- 
2.43.0


From e451673b9c3d671c46f8d39d92c9ea44da691e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 105/146] fix: a UNIX socket address is released twice when its
 name cannot be duplicated

---
 srcs/toolbox/net.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 7d70416..ccbc840 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1178,15 +1178,15 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
     dbg_err_ifm (u_strlcpy(sunix->sun_path, path, sizeof sunix->sun_path), 
             "%s too long", path);
 
+    /* set cname to what was provided as 'path' by the caller */
+    dbg_err_sif ((cname = u_strdup(path)) == NULL);
+    ai->ai_canonname = cname;
+
     ai->ai_protocol = 0;    /* override previous setting if any */
     ai->ai_addr = (struct sockaddr *) sunix;
     ai->ai_addrlen = sizeof *sunix;
     ai->ai_next = NULL;
 
-    /* set cname to what was provided as 'path' by the caller */
-    dbg_err_sif ((cname = u_strdup(path)) == NULL);
-    ai->ai_canonname = cname;
-
     return 0;
 err:
     U_FREE(sunix);
-- 
2.43.0


From 83aa8659e381da742e43f0a5f98ac279bb4884d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 106/146] fix: test: count running test cases afresh at each
 rank

---
 srcs/toolbox/test.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 237ce56..7a34c95 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1262,6 +1262,8 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
             tc = TC_HANDLE(tptr);
 
         resched:
+            parallel = 0;   /* Each chunk starts with no running TC. */
+
             for (to = tptr; to != NULL; to = LIST_NEXT(to, links))
             {
                 if (to->rank == r)
@@ -1298,10 +1300,7 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
 
             /* If 'tptr' was set, it means that we need to restart. */
             if (tptr != NULL)
-            {
-                parallel = 0;       /* Reset parallel counter. */
                 goto resched;       /* Go to sched again. */
-            }
         }
     }
 
-- 
2.43.0


From e647093e4451727611f2ab44282e94b460885709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:27 +0000
Subject: [PATCH 107/146] fix: test: do not loop for ever when a chunk restarts
 from a skipped test case

---
 srcs/toolbox/test.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 7a34c95..abd84c4 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1264,7 +1264,10 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
         resched:
             parallel = 0;   /* Each chunk starts with no running TC. */
 
-            for (to = tptr; to != NULL; to = LIST_NEXT(to, links))
+            /* Make sure 'tptr' is unset, so that, in case we go out on loop 
+             * exhaustion, the reaper branch knows that we don't need to be 
+             * restarted. */
+            for (to = tptr, tptr = NULL; to != NULL; to = LIST_NEXT(to, links))
             {
                 if (to->rank == r)
                 {
@@ -1288,11 +1291,6 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
                         goto reap;
                     }
                 }
-                    
-                /* Make sure 'tptr' is unset, so that, in case we go out on 
-                 * loop exhaustion, the reaper branch knows that we don't need
-                 * to be restarted. */
-                tptr = NULL;
             }
 
         reap:
-- 
2.43.0


From 2437153d3fafb1909c2cc9c4be2bb7d4b6a5d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 108/146] fix: test: count the test cases of a skipped suite

---
 srcs/toolbox/test.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index abd84c4..4b8218c 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1505,6 +1505,9 @@ static int u_test_suite_update_all_status (u_test_suite_t *ts, int status)
     LIST_FOREACH (to, &ts->u_test_cases.objs, links)
         to->status = status;
 
+    /* Collect synoptical stats. */
+    (void) u_test_syn_update(&ts->syn, &ts->u_test_cases);
+
     return 0;
 }
 
-- 
2.43.0


From 2c73ab02ef9ecd6fa7f7c7780f4503521eb8abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 109/146] fix: test: recognise a dependency that is already
 recorded

---
 srcs/toolbox/test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 4b8218c..c0dac1f 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -984,7 +984,7 @@ static int u_test_obj_dep_add (u_test_dep_t *td, u_test_obj_t *to)
 
     /* See if the dependency isn't already recorded, in which case
      * insert it into the dependency list for this test case/suite. */
-    if (u_test_dep_search(&to->deps, to->id) == NULL)
+    if (u_test_dep_search(&to->deps, td->id) == NULL)
     {
         LIST_INSERT_HEAD(&to->deps, td, links);
     }
-- 
2.43.0


From eaebae0de49fd7aa45dd64db97ecd2230dfccf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 110/146] fix: test: a test case that could not be started has
 not passed

---
 srcs/toolbox/test.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index c0dac1f..c01e730 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1551,6 +1551,7 @@ static int u_test_case_exec (u_test_case_t *tc)
     {
         case -1:
             u_warn("test case %s spawn failed: %s", tc->o.id, strerror(errno));
+            tc->o.status = U_TEST_ABORTED;
             return ~0;
         case 0:
             exit(tc->func(tc));
-- 
2.43.0


From da116bc899b2bc41c83a609606d3611268b4f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 111/146] fix: test: keep waiting for test cases when a stray
 signal interrupts wait3

---
 srcs/toolbox/test.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index c01e730..e914b88 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1327,8 +1327,11 @@ static int u_test_cases_reap (TO *h)
         if ((child = wait(&status)) == -1)
 #endif
         {
-            /* Interrupted (should be by user interaction) or no more child 
-             * processes */
+            /* Unless interrupted by the user, go on waiting. */
+            if (errno == EINTR && !g_interrupted)
+                continue;
+
+            /* Interrupted by user interaction or no more child processes */
             if (errno == EINTR || errno == ECHILD)
                 break;
             else    /* THIS IS BAD */
-- 
2.43.0


From a8e170e0dfd30294a409f3f5a44dfcad875954c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 112/146] fix: test: a test case whose outcome is unknown has
 not passed

---
 srcs/toolbox/test.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index e914b88..1eb7b2a 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1312,6 +1312,7 @@ static int u_test_cases_reap (TO *h)
 #ifdef U_TEST_SANDBOX_ENABLED
     int status;
     pid_t child;
+    u_test_obj_t *to;
     u_test_case_t *tc;
 #ifdef HAVE_STRUCT_RUSAGE
     struct rusage rusage;
@@ -1383,6 +1384,14 @@ static int u_test_cases_reap (TO *h)
     if (h->nchildren != 0)
     {
         CHAT("%u child(ren) still in wait !\n", h->nchildren);
+
+        /* The outcome of these test cases will never be known. */
+        LIST_FOREACH (to, &h->objs, links)
+        {
+            if (tc = TC_HANDLE(to), tc->pid != U_TEST_CASE_PID_INITIALIZER)
+                tc->o.status = U_TEST_ABORTED;
+        }
+
         goto err;
     }
 
-- 
2.43.0


From 7f565b2cfdfc9ffa16f0e38815f2999bbafa88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:19 +0000
Subject: [PATCH 113/146] fix: test: what was never run has not passed

---
 srcs/toolbox/test.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 1eb7b2a..abec0f7 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1155,7 +1155,7 @@ static int u_test_obj_init (const char *id, u_test_what_t what,
     to->parent = NULL;
     to->sequenced = 0;
     to->rank = 0;
-    to->status = U_TEST_SUCCESS;
+    to->status = U_TEST_SKIPPED;    /* Until it is run. */
     to->start = to->stop = -1;
     dbg_err_if (u_strlcpy(to->id, id, sizeof to->id)); 
 
@@ -1479,6 +1479,8 @@ static int u_test_suite_scheduler (u_test_obj_t *to)
     /* Record test suite begin timestamp. */
     ts->o.start = time(NULL);
 
+    ts->o.status = U_TEST_SUCCESS;
+
     /* Go through children test cases. */
     rc = u_test_obj_scheduler(&ts->u_test_cases, u_test_case_scheduler);
 
@@ -1539,6 +1541,8 @@ static int u_test_case_exec (u_test_case_t *tc)
 
     dbg_return_if (tc == NULL, ~0);
 
+    tc->o.status = U_TEST_SUCCESS;
+
     if (tc->func == NULL)
         return 0;
 
-- 
2.43.0


From 59e86b4cf0aef823770273223ca1d7a05488c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 114/146] fix: test: close the report file when a reporter
 fails

---
 srcs/toolbox/test.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index abec0f7..3e6488e 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1588,7 +1588,7 @@ static int u_test_case_exec (u_test_case_t *tc)
 
 static int u_test_reporter (u_test_t *t)
 {
-    FILE *fp;
+    FILE *fp = NULL;
     u_test_obj_t *tso, *tco;
     u_test_suite_t *ts;
 
@@ -1622,6 +1622,8 @@ static int u_test_reporter (u_test_t *t)
 
     return 0;
 err:
+    if (fp && fp != stdout)
+        (void) fclose(fp);
     return ~0;
 }
 
-- 
2.43.0


From 77c2788c8b4dc6ec644a245e89c0d6a8a9c694d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 115/146] fix: test: do not close standard output after
 reporting to it

---
 srcs/toolbox/test.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 3e6488e..9246bd2 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1618,7 +1618,8 @@ static int u_test_reporter (u_test_t *t)
 
     dbg_err_if (t->reporters.t_cb(fp, t, U_TEST_REP_TAIL));
 
-    (void) fclose(fp);
+    if (fp != stdout)
+        (void) fclose(fp);
 
     return 0;
 err:
-- 
2.43.0


From 0af2c938de70b137766a994de37ee20fc541b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 116/146] fix: test: report a failure to write the test report

---
 srcs/toolbox/test.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 9246bd2..d46f6c9 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1588,6 +1588,7 @@ static int u_test_case_exec (u_test_case_t *tc)
 
 static int u_test_reporter (u_test_t *t)
 {
+    int rc;
     FILE *fp = NULL;
     u_test_obj_t *tso, *tco;
     u_test_suite_t *ts;
@@ -1618,8 +1619,15 @@ static int u_test_reporter (u_test_t *t)
 
     dbg_err_if (t->reporters.t_cb(fp, t, U_TEST_REP_TAIL));
 
+    /* Make sure that the whole report was written out. */
+    dbg_err_sif (fflush(fp) == EOF || ferror(fp));
+
     if (fp != stdout)
-        (void) fclose(fp);
+    {
+        rc = fclose(fp);
+        fp = NULL;
+        dbg_err_sif (rc == EOF);
+    }
 
     return 0;
 err:
-- 
2.43.0


From 392a3a739c9662b2dbfcebb2ee4288d951f3e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 117/146] fix: test: an elapsed time is not a local time

---
 srcs/toolbox/test.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index d46f6c9..f837422 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -2038,7 +2038,7 @@ static int __timeval_fmt (struct timeval *tv, char t[80])
 
     secs = tv->tv_sec;
 
-    dbg_if (strftime(_tv, sizeof _tv, "%M:%S", localtime(&secs)) == 0);
+    dbg_if (strftime(_tv, sizeof _tv, "%M:%S", gmtime(&secs)) == 0);
     dbg_if (u_snprintf(t, 80, "%s.%06.6d", _tv, tv->tv_usec));
 
     return 0;
@@ -2067,7 +2067,7 @@ static int u_test_obj_ts_fmt (u_test_obj_t *to, char b[80], char e[80],
     }
 
     if (d)
-        dbg_if (strftime(d, 80, "%M:%S", localtime(&elapsed)) == 0);
+        dbg_if (strftime(d, 80, "%M:%S", gmtime(&elapsed)) == 0);
 
     return 0;
 }
-- 
2.43.0


From 232f609df03378989479350534df3c87ebd29b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:55 +0000
Subject: [PATCH 118/146] fix: env: load values of any length

---
 srcs/toolbox/env.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index d95236b..5ea38a6 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -12,6 +12,7 @@
 #include <toolbox/env.h>
 #include <toolbox/carpal.h>
 #include <toolbox/misc.h>
+#include <toolbox/str.h>
 
 /**
     \defgroup env Environment
@@ -88,7 +89,8 @@ int u_env_init (const char *prefix, const char *cfile)
 {
     enum { BUFSZ = 1024 };
     struct stat sb;
-    char line[BUFSZ], pcmd[BUFSZ], *val;
+    char chunk[BUFSZ], pcmd[BUFSZ], *line, *val;
+    u_string_t *s = NULL;
     FILE *pi = NULL;
 
     dbg_return_if (cfile == NULL || prefix == NULL, ~0);
@@ -100,24 +102,40 @@ int u_env_init (const char *prefix, const char *cfile)
 
     dbg_err_if ((pi = popen(pcmd, "r")) == NULL);
 
-    while(fgets(line, BUFSZ-1, pi))
+    dbg_err_if (u_string_create(NULL, 0, &s));
+
+    while(fgets(chunk, BUFSZ, pi))
     {
+        /* collect the whole line, however long */
+        dbg_err_if (u_string_append(s, chunk, strlen(chunk)));
+
+        if(strchr(chunk, '\n') == NULL)
+            continue;
+
+        line = (char *) u_string_c(s);
+
         if(strncmp(line, prefix, strlen(prefix)) == 0)
         {
             line[strlen(line)-1] = 0;
             val = strchr(line, '=');
-            if(!val)
-                continue; /* should never happen... */
-            *val++ = 0;
-            /* line is the name and val the value */
-            dbg_err_if(setenv(line, val, 1));
+            if(val)
+            {
+                *val++ = 0;
+                /* line is the name and val the value */
+                dbg_err_if(setenv(line, val, 1));
+            }
         }
+
+        dbg_err_if (u_string_clear(s));
     }
 
     pclose(pi);
+    u_string_free(s);
     return 0;
 err:
     U_PCLOSE(pi);
+    if(s)
+        u_string_free(s);
     return ~0;
 }
 
-- 
2.43.0


From 7aa2c41a999c2c98582eff5f2fbbc1f55c82b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:55 +0000
Subject: [PATCH 119/146] fix: env: report the failure to evaluate a file

---
 srcs/toolbox/env.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index 5ea38a6..6c6c0e3 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -92,6 +92,7 @@ int u_env_init (const char *prefix, const char *cfile)
     char chunk[BUFSZ], pcmd[BUFSZ], *line, *val;
     u_string_t *s = NULL;
     FILE *pi = NULL;
+    int rc;
 
     dbg_return_if (cfile == NULL || prefix == NULL, ~0);
 
@@ -129,7 +130,10 @@ int u_env_init (const char *prefix, const char *cfile)
         dbg_err_if (u_string_clear(s));
     }
 
-    pclose(pi);
+    rc = pclose(pi);
+    pi = NULL;
+    dbg_err_ifm (rc > 0, "%s: evaluation failed (%d)", cfile, rc);
+
     u_string_free(s);
     return 0;
 err:
-- 
2.43.0


From 0a492dbb56c4ab3f2dcf2742d8453a4e861caa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:28 +0000
Subject: [PATCH 120/146] fix: env: quote the file name given to the shell

---
 srcs/toolbox/env.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index 6c6c0e3..527e47c 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -89,7 +89,8 @@ int u_env_init (const char *prefix, const char *cfile)
 {
     enum { BUFSZ = 1024 };
     struct stat sb;
-    char chunk[BUFSZ], pcmd[BUFSZ], *line, *val;
+    char chunk[BUFSZ], *line, *val;
+    const char *p;
     u_string_t *s = NULL;
     FILE *pi = NULL;
     int rc;
@@ -99,11 +100,22 @@ int u_env_init (const char *prefix, const char *cfile)
     /* if 'cfile' does not exist bail out */
     dbg_err_sifm (stat(cfile, &sb) == -1, "%s", cfile);
 
-    dbg_err_if (u_snprintf(pcmd, BUFSZ, ". %s 2>/dev/null && env", cfile));
+    dbg_err_if (u_string_create(". '", strlen(". '"), &s));
 
-    dbg_err_if ((pi = popen(pcmd, "r")) == NULL);
+    /* the file name must reach the shell as a single, literal, word */
+    for (p = cfile; *p != '\0'; ++p)
+    {
+        if (*p == '\'')
+            dbg_err_if (u_string_append(s, "'\\''", strlen("'\\''")));
+        else
+            dbg_err_if (u_string_append(s, p, 1));
+    }
+
+    dbg_err_if (u_string_aprintf(s, "' 2>/dev/null && env"));
+
+    dbg_err_if ((pi = popen(u_string_c(s), "r")) == NULL);
 
-    dbg_err_if (u_string_create(NULL, 0, &s));
+    dbg_err_if (u_string_clear(s));
 
     while(fgets(chunk, BUFSZ, pi))
     {
-- 
2.43.0


From de0b7a6dd8e83295eb18bdff6e03b463726cb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:28 +0000
Subject: [PATCH 121/146] fix: env: load the file that was asked for, not one
 found in PATH

---
 srcs/toolbox/env.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index 527e47c..9e0f04c 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -102,6 +102,11 @@ int u_env_init (const char *prefix, const char *cfile)
 
     dbg_err_if (u_string_create(". '", strlen(". '"), &s));
 
+    /* keep the shell from searching the file in PATH (or from taking its name
+     * as an option) */
+    if (*cfile != '/')
+        dbg_err_if (u_string_append(s, "./", strlen("./")));
+
     /* the file name must reach the shell as a single, literal, word */
     for (p = cfile; *p != '\0'; ++p)
     {
-- 
2.43.0


From fb19a5045d19637c1bfd311cd8b51ba1e9a1a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:13 +0000
Subject: [PATCH 122/146] fix: env: a directory is not an environment file

---
 srcs/toolbox/env.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index 9e0f04c..6485055 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -100,6 +100,9 @@ int u_env_init (const char *prefix, const char *cfile)
     /* if 'cfile' does not exist bail out */
     dbg_err_sifm (stat(cfile, &sb) == -1, "%s", cfile);
 
+    /* some shells silently read nothing from a directory */
+    dbg_err_ifm (S_ISDIR(sb.st_mode), "%s is a directory", cfile);
+
     dbg_err_if (u_string_create(". '", strlen(". '"), &s));
 
     /* keep the shell from searching the file in PATH (or from taking its name
-- 
2.43.0


From 6df96a1cf541f25f27258c4f4b32c68defeabfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:13 +0000
Subject: [PATCH 123/146] fix: env: do not mistake the output of the file for
 its exports

---
 srcs/toolbox/env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index 6485055..b7618ea 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -119,7 +119,7 @@ int u_env_init (const char *prefix, const char *cfile)
             dbg_err_if (u_string_append(s, p, 1));
     }
 
-    dbg_err_if (u_string_aprintf(s, "' 2>/dev/null && env"));
+    dbg_err_if (u_string_aprintf(s, "' >/dev/null 2>&1 && env"));
 
     dbg_err_if ((pi = popen(u_string_c(s), "r")) == NULL);
 
-- 
2.43.0


From b0f1561363010b4ab2bfad1429df23e4fb08e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:46 +0000
Subject: [PATCH 124/146] fix: u_bst_push lost or miscounted the tree when out
 of memory

---
 srcs/toolbox/bst.c | 106 +++++++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 61 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 92eddde..fe09d56 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -39,13 +39,13 @@ static u_bst_node_t *u_bst_node_search (u_bst_node_t *node, const void *key,
 static void u_bst_node_foreach (u_bst_node_t *node, 
         void (*cb)(u_bst_node_t *, void *), void *cb_args);
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val);
+        u_bst_node_t *newnode);
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node,
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_find_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r);
@@ -200,17 +200,25 @@ void u_bst_free (u_bst_t *bst)
  */
 int u_bst_push (u_bst_t *bst, const void *key, const void *val)
 {
+    u_bst_node_t *newnode = NULL;
+
     dbg_return_if (bst == NULL, ~0);
     dbg_return_if (key == NULL, ~0);
 
+    /* Create the node before touching the tree, which must survive unchanged
+     * in case we run out of memory. */
+    warn_err_if (u_bst_node_new(bst, key, val, &newnode));
+
     if (bst->opts & U_BST_OPT_RANDOMIZED)
-        bst->root = u_bst_node_push_rand(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_rand(bst, bst->root, newnode);
     else if (bst->opts & U_BST_OPT_PUSH_TOP)
-        bst->root = u_bst_node_push_top(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_top(bst, bst->root, newnode);
     else /* The default is bottom insertion. */
-        bst->root = u_bst_node_push_bottom(bst, key, val);
+        bst->root = u_bst_node_push_bottom(bst, newnode);
 
-    return bst->root ? 0 : ~0;
+    return 0;
+err:
+    return ~0;
 }
 
 /**
@@ -704,76 +712,64 @@ static void u_bst_node_foreach (u_bst_node_t *node,
 }
 
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
     /* The new node is inserted on the top with 1/nelem+1 probability. */
     if ((size_t) rand() < RAND_MAX / (node->nelem + 1))
-        return u_bst_node_push_top(bst, node, key, val);
+        return u_bst_node_push_top(bst, node, newnode);
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
  
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val)
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode)
 {
     u_bst_node_t *parent, *node;
 
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     /* Empty BST, handle special case. */
     if (u_bst_empty(bst))
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &bst->root));
-        return bst->root;
-    }
+        return newnode;
 
     /* Find a way through the non-empty BST until we reach an external node. */
     for (node = bst->root;
             node != NULL;
-            node = (bst->cmp(key, node->key) < 0) ? node->left : node->right)
+            node = (bst->cmp(newnode->key, node->key) < 0) ? 
+                node->left : node->right)
     {
         /* Save parent reference.  It is needed later, on loop exhaustion, to 
          * fix left/child links of the node to which we attach. */
@@ -783,53 +779,41 @@ static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key,
         node->nelem += 1;
     }
 
-    /* Create a new node with the supplied (key, val). */
-    warn_err_if (u_bst_node_new(bst, key, val, &node));
-
     /* Choose the subtree to which it belongs. */
-    if (bst->cmp(key, parent->key) < 0)
-        parent->left = node;
+    if (bst->cmp(newnode->key, parent->key) < 0)
+        parent->left = newnode;
     else
-        parent->right = node;
+        parent->right = newnode;
 
     return bst->root;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *newnode = NULL;
-
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
-    /* External node reached: create the node. */
+    /* External node reached: hook the node. */
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &newnode));
         return newnode;
-    }
 
     /* Update child counter of the traversed node. */
     node->nelem += 1;
 
     /* Let the created node bubble up through subsequent rotations. */
-    if (bst->cmp(key, node->key) < 0)
+    if (bst->cmp(newnode->key, node->key) < 0)
     {
-        node->left = u_bst_node_push_top(bst, node->left, key, val);
+        node->left = u_bst_node_push_top(bst, node->left, newnode);
         node = u_bst_rotate(node, U_BST_ROT_RIGHT);
     }
     else
     {
-        node->right = u_bst_node_push_top(bst, node->right, key, val);
+        node->right = u_bst_node_push_top(bst, node->right, newnode);
         node = u_bst_rotate(node, U_BST_ROT_LEFT);
     }
     
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n)
-- 
2.43.0


From 6811829214eb6645dfd45377389e4c23e2211683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:46 +0000
Subject: [PATCH 125/146] fix: u_string_set and u_string_copy lost the old
 value when out of memory

---
 srcs/toolbox/str.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index be329d7..8f87dce 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -193,9 +193,7 @@ inline int u_string_copy (u_string_t *dst, u_string_t *src)
     dbg_return_if (dst == NULL, ~0);
     dbg_return_if (src == NULL, ~0);
 
-    (void) u_string_clear(dst);
-
-    return u_string_append(dst, src->data, src->data_len);
+    return u_string_set(dst, src->data, src->data_len);
 }
 
 /**
@@ -297,11 +295,27 @@ int u_string_free (u_string_t *s)
  */
 int u_string_set (u_string_t *s, const char *buf, size_t len)
 {
+    char first;
+    size_t old_len;
+
     dbg_return_if (s == NULL, ~0);
 
+    first = s->data[0];
+    old_len = s->data_len;
+
     (void) u_string_clear(s);
 
-    return u_string_append(s, buf, len);
+    dbg_err_if (u_string_append(s, buf, len));
+
+    return 0;
+err:
+    /* keep the old value */
+    if (s->data_sz)
+    {
+        s->data[0] = first;
+        s->data_len = old_len;
+    }
+    return ~0;
 }
 
 /**
-- 
2.43.0


From ef1d9a0c53d37c404f944a9373f93e1bdc282025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:46 +0000
Subject: [PATCH 126/146] fix: u_buf_set lost the old contents when out of
 memory

---
 srcs/toolbox/buf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index c36df46..fabbb7e 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -269,6 +269,10 @@ int u_buf_set (u_buf_t *ubuf, const void *data, size_t size)
     dbg_return_if (data == NULL, ~0);
     dbg_return_if (size == 0, ~0);
 
+    /* make room before dropping the old contents, which are kept on error */
+    if (ubuf->size < size)
+        dbg_err_if (u_buf_reserve(ubuf, ubuf->size + 2 * size));
+
     dbg_err_if (u_buf_clear(ubuf));
     dbg_err_if (u_buf_append(ubuf, data, size));
 
-- 
2.43.0


From 797d617d7b8a2741a752b6306412733d581d708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:00 +0000
Subject: [PATCH 127/146] fix: u_string_sprintf lost the old value on error

---
 srcs/toolbox/str.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 8f87dce..158390d 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -487,7 +487,17 @@ static int u_string_do_vprintf (u_string_t *s, int clear, const char *fmt,
     dbg_return_if (fmt == NULL, ~0);
 
     if (clear)
+    {
+        /* make room before dropping the old value, which is kept on error */
+        u_va_copy(apcpy, ap); 
+        rc = vsnprintf(NULL, 0, fmt, apcpy);
+        va_end(apcpy);
+
+        dbg_err_if (rc < 0);
+        dbg_err_if (u_string_reserve(s, (size_t) rc + 1));
+
         (void) u_string_clear(s);
+    }
 
 again:
     avail = s->data_sz - s->data_len; /* avail may be zero */
-- 
2.43.0


From 23f6d9bb7d8da5833f33a33bf4a8e02a76ba407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 128/146] fix: u_string_aprintf left a partial output in the
 string when out of memory

---
 srcs/toolbox/str.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 158390d..ffb433e 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -525,10 +525,11 @@ again:
 
     if (sz >= avail)
     {
-        dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
-
         /* trunc the buffer again since vsnprintf could have overwritten '\0' */
-        s->data[s->data_len] = '\0';
+        if (avail)
+            s->data[s->data_len] = '\0';
+
+        dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
 
         goto again;
     }
-- 
2.43.0


From 58d278d4e56d5d63d5e68c95664c0df317722282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 129/146] fix: u_config_add_child leaked the child when out of
 memory

---
 srcs/toolbox/config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 9837a5b..999332e 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -354,6 +354,8 @@ int u_config_add_child (u_config_t *c, const char *key, u_config_t **pc)
 
     return 0;
 err:
+    if(child)
+        u_config_free(child);
     return ~0;
 }
 
-- 
2.43.0


From 2c17d8ff6c9b65eb4a191abf01c6427e3f54b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 130/146] fix: a configuration was silently truncated when out
 of memory

---
 srcs/toolbox/config.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 999332e..fcd8aa5 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1149,7 +1149,8 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
         dbg_err_if(u_string_append(ln, buf, len));
     }
 
-    nop_err_if(p == NULL && u_string_len(ln) == 0); /* eof */
+    if(p == NULL && u_string_len(ln) == 0)
+        return 1; /* eof */
 
     return 0;
 err:
@@ -1162,7 +1163,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
-    int lineno = 1, closed = 0;
+    int lineno = 1, closed = 0, rc;
     u_config_t *child = NULL;
     u_config_t *subkey;
 
@@ -1173,8 +1174,11 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
     dbg_err_if(drv->gets == NULL);
 
-    for(; cs_getline(drv->gets, arg, line) == 0; u_string_clear(line), ++lineno)
+    for(; (rc = cs_getline(drv->gets, arg, line)) != 1; 
+            u_string_clear(line), ++lineno)
     {
+        dbg_err_if (rc); /* don't take an error for the end of the source */
+
         dbg_err_if (u_config_remove_comment(line));
 
         /* remove leading and trailing blanks */
-- 
2.43.0


From 88bcc6280a580fae233c5ccb052b6fa34902bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 131/146] fix: the fnmatch replacement never matched characters
 outside ASCII

---
 srcs/missing/fnmatch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index 4c0bf06..82a59de 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -59,7 +59,7 @@ static inline int foldcase(int ch, int flags)
 int fnmatch (const char *pattern, const char *string, int flags)
 {
 	const char *stringstart;
-	char c, test;
+	int c, test;
 
 	for (stringstart = string;;)
 		switch (c = FOLDCASE(*pattern++, flags)) {
@@ -143,7 +143,7 @@ int fnmatch (const char *pattern, const char *string, int flags)
 static const char *rangematch (const char *pattern, int test, int flags)
 {
 	int negate, ok;
-	char c, c2;
+	int c, c2;
 
 	/*
 	 * A bracket expression starting with an unquoted circumflex
-- 
2.43.0


From c0181eab6bf8a15c2f921d882eec277664e9e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 132/146] fix: the fnmatch replacement let wildcards after a
 star match a leading period

---
 srcs/missing/fnmatch.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index 82a59de..1a55628 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -44,6 +44,7 @@
 
 #define	EOS	'\0'
 
+static int fnmatch1(const char *, const char *, const char *, int);
 static const char *rangematch(const char *, int, int);
 
 static inline int foldcase(int ch, int flags)
@@ -58,10 +59,16 @@ static inline int foldcase(int ch, int flags)
 
 int fnmatch (const char *pattern, const char *string, int flags)
 {
-	const char *stringstart;
+	return (fnmatch1(pattern, string, string, flags));
+}
+
+/* stringstart is where the whole string begins, string may be inside it */
+static int fnmatch1 (const char *pattern, const char *string, 
+		const char *stringstart, int flags)
+{
 	int c, test;
 
-	for (stringstart = string;;)
+	for (;;)
 		switch (c = FOLDCASE(*pattern++, flags)) {
 		case EOS:
 			if ((flags & FNM_LEADING_DIR) && *string == '/')
@@ -105,8 +112,8 @@ int fnmatch (const char *pattern, const char *string, int flags)
 
 			/* General case, use recursion. */
 			while ((test = FOLDCASE(*string, flags)) != EOS) {
-				if (!fnmatch(pattern, string,
-					     flags & ~FNM_PERIOD))
+				if (!fnmatch1(pattern, string, stringstart,
+					      flags))
 					return (0);
 				if (test == '/' && flags & FNM_PATHNAME)
 					break;
-- 
2.43.0


From 2fe67b1349708e054fd5a2c17ccae67d4ec973b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 133/146] fix: the fnmatch replacement let a bracket expression
 match a leading period

---
 srcs/missing/fnmatch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index 1a55628..9294ca4 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -125,6 +125,10 @@ static int fnmatch1 (const char *pattern, const char *string,
 				return (FNM_NOMATCH);
 			if (*string == '/' && flags & FNM_PATHNAME)
 				return (FNM_NOMATCH);
+			if (*string == '.' && (flags & FNM_PERIOD) &&
+			    (string == stringstart ||
+			    ((flags & FNM_PATHNAME) && *(string - 1) == '/')))
+				return (FNM_NOMATCH);
 			if ((pattern =
 			    rangematch(pattern, FOLDCASE(*string, flags),
 				       flags)) == NULL)
-- 
2.43.0


From 0e4b7ec111100d9913b1432f76b3f10777c5cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 134/146] fix: a right bracket in the first place ended the
 bracket expression in the fnmatch replacement

---
 srcs/missing/fnmatch.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index 9294ca4..4c76678 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -153,7 +153,7 @@ static int fnmatch1 (const char *pattern, const char *string,
 
 static const char *rangematch (const char *pattern, int test, int flags)
 {
-	int negate, ok;
+	int negate, ok, first;
 	int c, c2;
 
 	/*
@@ -166,7 +166,9 @@ static const char *rangematch (const char *pattern, int test, int flags)
 	if ((negate = (*pattern == '!' || *pattern == '^')) != 0)
 		++pattern;
 	
-	for (ok = 0; (c = FOLDCASE(*pattern++, flags)) != ']';) {
+	/* A right bracket loses its special meaning when it comes first. */
+	for (ok = 0, first = 1; 
+	    (c = FOLDCASE(*pattern++, flags)) != ']' || first; first = 0) {
 		if (c == '\\' && !(flags & FNM_NOESCAPE))
 			c = FOLDCASE(*pattern++, flags);
 		if (c == EOS)
-- 
2.43.0


From e316744d86d0af7fa3b28171061c670789a98d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:46 +0000
Subject: [PATCH 135/146] fix: the fnmatch replacement gave up on a left
 bracket without its right one

---
 srcs/missing/fnmatch.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index 4c76678..1a11b8e 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -44,8 +44,12 @@
 
 #define	EOS	'\0'
 
+#define	RANGE_MATCH	1
+#define	RANGE_NOMATCH	0
+#define	RANGE_ERROR	(-1)
+
 static int fnmatch1(const char *, const char *, const char *, int);
-static const char *rangematch(const char *, int, int);
+static int rangematch(const char *, int, int, const char **);
 
 static inline int foldcase(int ch, int flags)
 {
@@ -129,10 +133,18 @@ static int fnmatch1 (const char *pattern, const char *string,
 			    (string == stringstart ||
 			    ((flags & FNM_PATHNAME) && *(string - 1) == '/')))
 				return (FNM_NOMATCH);
-			if ((pattern =
-			    rangematch(pattern, FOLDCASE(*string, flags),
-				       flags)) == NULL)
+			switch (rangematch(pattern, FOLDCASE(*string, flags),
+				flags, &pattern)) {
+			case RANGE_MATCH:
+				break;
+			case RANGE_NOMATCH:
 				return (FNM_NOMATCH);
+			case RANGE_ERROR:
+				/* not a bracket expression, match it as is */
+				if (*string != '[')
+					return (FNM_NOMATCH);
+				break;
+			}
 			++string;
 			break;
 		case '\\':
@@ -151,7 +163,9 @@ static int fnmatch1 (const char *pattern, const char *string,
 	/* NOTREACHED */
 }
 
-static const char *rangematch (const char *pattern, int test, int flags)
+/* On success, *newp is the first character after the bracket expression */
+static int rangematch (const char *pattern, int test, int flags, 
+		const char **newp)
 {
 	int negate, ok, first;
 	int c, c2;
@@ -172,7 +186,7 @@ static const char *rangematch (const char *pattern, int test, int flags)
 		if (c == '\\' && !(flags & FNM_NOESCAPE))
 			c = FOLDCASE(*pattern++, flags);
 		if (c == EOS)
-			return (NULL);
+			return (RANGE_ERROR);
 		if (*pattern == '-' 
 		    && (c2 = FOLDCASE(*(pattern+1), flags)) != EOS &&
 		        c2 != ']') {
@@ -180,11 +194,12 @@ static const char *rangematch (const char *pattern, int test, int flags)
 			if (c2 == '\\' && !(flags & FNM_NOESCAPE))
 				c2 = FOLDCASE(*pattern++, flags);
 			if (c2 == EOS)
-				return (NULL);
+				return (RANGE_ERROR);
 			if (c <= test && test <= c2)
 				ok = 1;
 		} else if (c == test)
 			ok = 1;
 	}
-	return (ok == negate ? NULL : pattern);
+	*newp = pattern;
+	return (ok == negate ? RANGE_NOMATCH : RANGE_MATCH);
 }
-- 
2.43.0


From 104661d25502feec62f790ca6fe3460bf103f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 136/146] fix: the timegm replacement left a dangling,
 truncated or empty TZ in the environment

---
 srcs/missing/timegm.c | 46 +++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/srcs/missing/timegm.c b/srcs/missing/timegm.c
index 2a2f59a..a628c28 100644
--- a/srcs/missing/timegm.c
+++ b/srcs/missing/timegm.c
@@ -5,29 +5,37 @@
 
 #ifndef HAVE_TIMEGM
 
-#include <stdlib.h>
-#include <stdio.h>
-
+/* Count by hand instead of having mktime() do it under TZ=UTC: the environment 
+ * can't be changed and put back without a trace. */
 time_t timegm(struct tm *tm)
 {
     time_t ret;
-    char *tz;
-    
-    /* save current timezone and set UTC */
-    tz = getenv("TZ");
-    putenv("TZ=UTC");   /* use Coordinated Universal Time (i.e. zero offset) */
-    tzset();
-    
-    ret = mktime(tm);
-    if(tz)
+    long year = tm->tm_year + 1900L + tm->tm_mon / 12, y;
+    int mon = tm->tm_mon % 12;
+    struct tm *res;
+    static const int mdays[12] =
+        { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
+
+    if(mon < 0)
     {
-        char buf[256];
-        snprintf(buf, sizeof(buf), "TZ=%s", tz);
-        putenv(buf);
-    } else
-        putenv("TZ=");
-    tzset();
-    
+        mon += 12;
+        --year;
+    }
+
+    /* leap days up to the last 28/29 Feb (y is never negative below) */
+    y = (mon < 2 ? year - 1 : year) + 400000;
+
+    ret = (time_t) (year - 1970) * 365 + mdays[mon] + tm->tm_mday - 1;
+    ret += (y / 4 - y / 100 + y / 400) - (401969 / 4 - 401969 / 100 + 401969 / 400);
+    ret = ret * 24 + tm->tm_hour;
+    ret = ret * 60 + tm->tm_min;
+    ret = ret * 60 + tm->tm_sec;
+
+    /* normalise the fields like mktime() does */
+    if((res = gmtime(&ret)) == NULL)
+        return (time_t) -1;
+    *tm = *res;
+
     return ret;
 }
 
-- 
2.43.0


From b90d2e45f7e830033a76d4c0dfa890727066021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 137/146] fix: the hmap debug dumps took keys and values as
 format strings

---
 srcs/toolbox/hmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 0b8f0c3..08c101b 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -2031,7 +2031,7 @@ void u_hmap_dbg (u_hmap_t *hmap)
                 u_string_free(st);
             }
         }
-        u_dbg(u_string_c(s));
+        u_dbg("%s", u_string_c(s));
         u_string_free(s);
     }
 
@@ -2069,7 +2069,7 @@ void u_hmap_pcy_dbg (u_hmap_t *hmap)
         u_string_free(s2);
     }
 
-    u_dbg(u_string_c(s));
+    u_dbg("%s", u_string_c(s));
     u_string_free(s);
 
     return;
-- 
2.43.0


From df40166160b85373ee36965b7c33d9ec845377fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 138/146] fix: u_hmap_dbg dropped the last character of each
 object

---
 srcs/toolbox/hmap.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 08c101b..1906e6b 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -2025,9 +2025,8 @@ void u_hmap_dbg (u_hmap_t *hmap)
             }
             else
             {
-                st = hmap->opts->f_str(obj);
-                dbg_err_if (u_string_append(s, u_string_c(st),
-                            u_string_len(st)-1));
+                dbg_err_if ((st = hmap->opts->f_str(obj)) == NULL);
+                dbg_err_if (u_string_cat(s, u_string_c(st)));
                 u_string_free(st);
             }
         }
-- 
2.43.0


From 5a7347158e6ba1cbe557be80efb56411dc53c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 139/146] fix: u_hmap_pcy_dbg called a NULL function or used a
 NULL string when an object could not be shown

---
 srcs/toolbox/hmap.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 1906e6b..f5d0856 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -2061,11 +2061,18 @@ void u_hmap_pcy_dbg (u_hmap_t *hmap)
 
     TAILQ_FOREACH(q, &hmap->pcy.queue, next)
     {
-        s2 = hmap->opts->f_str(q->ho);
-        dbg_err_if (u_string_cat(s, u_string_c(s2)));
+        if (hmap->opts->f_str == NULL)
+        {
+            dbg_err_if (u_string_cat(s, "[]"));
+        }
+        else
+        {
+            dbg_err_if ((s2 = hmap->opts->f_str(q->ho)) == NULL);
+            dbg_err_if (u_string_cat(s, u_string_c(s2)));
+            U_FREEF(s2, u_string_free);
+        }
         if (hmap->opts->policy == U_HMAP_PCY_LFU)  /* print count */
             dbg_err_if (u_string_aprintf(s, "-%d", *((int *)q->data)));
-        u_string_free(s2);
     }
 
     u_dbg("%s", u_string_c(s));
-- 
2.43.0


From 4fc116445e3ea1a1ae26cb1be1ad8a1d080ace56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:51 +0000
Subject: [PATCH 140/146] fix: u_sa_ntop read past a UNIX address whose path
 fills it

---
 srcs/toolbox/net.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ccbc840..e1bd2c3 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -800,7 +800,9 @@ const char *u_sa_ntop (const struct sockaddr *sa, char *d, size_t dlen)
         case AF_UNIX:
         {
             const struct sockaddr_un *su = (const struct sockaddr_un *) sa;
-            dbg_if (u_strlcpy(d, su->sun_path, dlen));
+            /* a full-length path has no terminator */
+            dbg_if (u_snprintf(d, dlen, "%.*s", 
+                        (int) sizeof su->sun_path, su->sun_path));
             break;
         }
 #endif  /* !NO_UNIXSOCK */
-- 
2.43.0


From e29c31ba360f2f666e3006121e8ba23c16370ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:39 +0000
Subject: [PATCH 141/146] fix: an in-memory password database missed changes
 made within the second of its last load

---
 srcs/toolbox/pwd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 43364f7..cd26526 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -4,6 +4,7 @@
 
 #include <sys/stat.h>
 #include <sys/types.h>
+#include <time.h>
 #include <u/libu_conf.h>
 #include <u/libu.h>
 #include <toolbox/hmap.h>
@@ -854,7 +855,10 @@ static int __file_notify (const char *path, time_t last_update,
 
     if (sb.st_ctime != last_update)
     {
-        *pnew_update = sb.st_ctime;
+        /* a change made later in this same second would have the same stamp:
+         * make sure the file is looked at again next time */
+        *pnew_update = (sb.st_ctime < time(NULL)) ? 
+            sb.st_ctime : sb.st_ctime - 1;
         return 1;
     }
 
-- 
2.43.0


From 3359a91c3a5aa7d6a2bcbed0ab0682770bdd65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:39 +0000
Subject: [PATCH 142/146] fix: u_sleep returned at once when asked to sleep for
 more than INT_MAX seconds

---
 srcs/toolbox/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index cb7ac1b..d8d8d6e 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -692,7 +692,7 @@ int u_sleep(unsigned int secs)
 #ifdef OS_WIN
     Sleep(secs * 1000);
 #else
-    int sleep_for, c;
+    unsigned int sleep_for, c;
 
     for (sleep_for = secs; sleep_for > 0; sleep_for = c)
     {
-- 
2.43.0


From 57b77416fe14cf595fddda14120fc93456e27b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:50 +0000
Subject: [PATCH 143/146] fix: a log message that could not be formatted was
 sent as garbage

---
 srcs/toolbox/log.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index 9b0c86f..d4ff1a3 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -100,6 +100,7 @@ static int u_log(int fac, int level, const char *fmt, ...)
 {
     va_list ap;
     char buf[U_MAX_LOG_LENGTH];
+    int rc;
 
     va_start(ap, fmt); 
 
@@ -107,11 +108,12 @@ static int u_log(int fac, int level, const char *fmt, ...)
 
     if(hook)
     {
-        if(vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap) >= U_MAX_LOG_LENGTH)
+        rc = vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap);
+        if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
         {
             va_end(ap);
             u_log_unlock();
-            return ~0; /* buffer too small */
+            return ~0; /* bad message or buffer too small */
         }
         buf[U_MAX_LOG_LENGTH - 1] = 0; 
         hook(hook_arg, level, buf);
@@ -157,8 +159,8 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
     rc = vsnprintf(msg, U_MAX_LOG_LENGTH, fmt, ap);
     va_end(ap);
 
-    if(rc >= U_MAX_LOG_LENGTH)
-        goto err; /* message too long */
+    if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
+        goto err; /* bad or too long message */
 
     /* init empty strings */
     errmsg[0] = strerr[0] = 0;
-- 
2.43.0


From 7624dbc812526c3121e705129fec0553e7a10d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 144/146] fix: SCTP sockets subscribe to the requested events
 only

---
 srcs/toolbox/net.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index e1bd2c3..914977b 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -990,6 +990,9 @@ static int sctp_enable_events (int s, int o)
 {
     struct sctp_event_subscribe e;
 
+    /* the system may know about more events than the ones set below */
+    memset(&e, 0, sizeof e);
+
     e.sctp_data_io_event = 
         (o & U_NET_OPT_SCTP_DATA_IO_EVENT) ? 1 : 0;
 
-- 
2.43.0


From 5445ae18f3df4067ab83b2193bf2664dead95d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:01 +0000
Subject: [PATCH 145/146] fix: net: without getaddrinfo, an address is released
 twice when copying the host name fails

---
 srcs/toolbox/net.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 914977b..4aec73d 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1348,14 +1348,14 @@ static int resolv_sin (const char *host, const char *port,
             dbg_err("invalid host name: \'%s\'", host);
     }
 
-    ai->ai_addr = (struct sockaddr *) sin;
-    ai->ai_addrlen = sizeof *sin;
-    ai->ai_next = NULL;
-
     /* set cname to what was provided as 'host' by the caller */
     dbg_err_sif ((cname = u_strdup(host)) == NULL);
     ai->ai_canonname = cname;
 
+    ai->ai_addr = (struct sockaddr *) sin;
+    ai->ai_addrlen = sizeof *sin;
+    ai->ai_next = NULL;
+
     return 0;
 err:
     U_FREE(sin);
@@ -1421,14 +1421,14 @@ static int resolv_sin6 (const char *host, const char *port,
         }
     }
 
-    ai->ai_addr = (struct sockaddr *) sin6;
-    ai->ai_addrlen = sizeof *sin6;
-    ai->ai_next = NULL;
-
     /* set cname to what was provided as 'host' by the caller */
     dbg_err_sif ((cname = u_strdup(host)) == NULL);
     ai->ai_canonname = cname;
 
+    ai->ai_addr = (struct sockaddr *) sin6;
+    ai->ai_addrlen = sizeof *sin6;
+    ai->ai_next = NULL;
+
     return 0;
 err:
     U_FREE(sin6);
-- 
2.43.0


From 575e20266913143f4bf64c7f39dc54527d29e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:52 +0000
Subject: [PATCH 146/146] fix: timegm replacement is a day off for years before
 -400000

---
 srcs/missing/timegm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/srcs/missing/timegm.c b/srcs/missing/timegm.c
index a628c28..d37aebe 100644
--- a/srcs/missing/timegm.c
+++ b/srcs/missing/timegm.c
@@ -5,6 +5,9 @@
 
 #ifndef HAVE_TIMEGM
 
+/* Round down also when a is negative. */
+#define FLOOR_DIV(a, b) ((a) / (b) - ((a) % (b) < 0))
+
 /* Count by hand instead of having mktime() do it under TZ=UTC: the environment 
  * can't be changed and put back without a trace. */
 time_t timegm(struct tm *tm)
@@ -22,11 +25,12 @@ time_t timegm(struct tm *tm)
         --year;
     }
 
-    /* leap days up to the last 28/29 Feb (y is never negative below) */
-    y = (mon < 2 ? year - 1 : year) + 400000;
+    /* leap days up to the last 28/29 Feb */
+    y = mon < 2 ? year - 1 : year;
 
     ret = (time_t) (year - 1970) * 365 + mdays[mon] + tm->tm_mday - 1;
-    ret += (y / 4 - y / 100 + y / 400) - (401969 / 4 - 401969 / 100 + 401969 / 400);
+    ret += (FLOOR_DIV(y, 4) - FLOOR_DIV(y, 100) + FLOOR_DIV(y, 400)) -
+        (1969 / 4 - 1969 / 100 + 1969 / 400);
     ret = ret * 24 + tm->tm_hour;
     ret = ret * 60 + tm->tm_min;
     ret = ret * 60 + tm->tm_sec;
-- 
2.43.0

