From 278e37d55e1bc9fbd8e27af6c9b3c17d563f67f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:20 +0000
Subject: [PATCH 01/11] fix: CBC encryption: check the bounds of the source and
 destination blocks

The source block was xored into the IV by an unchecked primitive, reading
outside of the source buffer when src_off is out of bounds.
---
 src/cryptokit.ml | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e061d9e..429a510 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -654,6 +654,9 @@ class cbc_encrypt ?iv:iv_init (cipher : block_cipher) =
     val iv = make_initial_iv blocksize iv_init
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - blocksize
+      || dst_off < 0 || dst_off > Bytes.length dst - blocksize
+      then invalid_arg "cbc_encrypt#transform";
       xor_bytes src src_off iv 0 blocksize;
       cipher#transform iv 0 dst dst_off;
       Bytes.blit dst dst_off iv 0 blocksize
-- 
2.43.0


From d23a1fbe95be68693bfc2827294afd4fe98cc9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:20 +0000
Subject: [PATCH 02/11] fix: Chacha20-Poly1305 decryption: check bounds before
 hashing the input

The unchecked Poly1305 update was performed before Chacha20's bounds check,
reading outside of the input buffer when given an invalid substring.
---
 src/cryptokit.ml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 429a510..30262df 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1789,6 +1789,10 @@ class chapoly_decrypt ?(header = "") ~iv key =
   (* The stream cipher that wraps Chacha20 with hash updates *)
   let enc = object
     method transform src soff dst doff len =
+      if len < 0
+      || soff < 0 || soff > Bytes.length src - len
+      || doff < 0 || doff > Bytes.length dst - len
+      then invalid_arg "chacha20_poly1305#transform";
       poly1305_update h src soff len;
       cha#transform src soff dst doff len;
       cipherlen := Int64.(add !cipherlen (of_int len))
-- 
2.43.0


From 843f1a4d198ced3fe9eb40147e30cf1bb75e4720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:20 +0000
Subject: [PATCH 03/11] fix: Zlib.compress, Zlib.uncompress: check bounds in
 put_substring

The substring was passed unchecked to deflate and inflate.
---
 src/cryptokit.ml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 30262df..9958bf1 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2529,6 +2529,8 @@ class compress level write_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.compress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (_, used_in, used_out) =
@@ -2584,6 +2586,8 @@ class uncompress expect_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.uncompress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (finished, used_in, used_out) =
-- 
2.43.0


From f0bb5773e42d940da01c7cad45a579435d7102e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:20 +0000
Subject: [PATCH 04/11] fix: declared hash sizes of SHA-224 (28 bytes) and
 RIPEMD-160 (20 bytes)

---
 src/cryptokit.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 9958bf1..2a53dc7 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1101,7 +1101,7 @@ let sha1 () = new sha1
 class sha224 =
   object(self)
     val context = sha224_init()
-    method hash_size = 24
+    method hash_size = 28
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "sha224#add_substring";
@@ -1223,7 +1223,7 @@ let keccak sz = new sha3 sz false
 class ripemd160 =
   object(self)
     val context = ripemd160_init()
-    method hash_size = 32
+    method hash_size = 20
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "ripemd160#add_substring";
-- 
2.43.0


From 60e81b7c42b3e1d8c8302a89777bfc386aaa3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:48 +0000
Subject: [PATCH 05/11] fix: Chacha20 with a 12-byte IV: accept exactly the
 32-bit initial counters

The limit was written 0x1_000_000L (2^24) instead of 2^32, and negative
counters were silently truncated.
---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 2a53dc7..e3a3341 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1020,7 +1020,7 @@ class chacha20 ?iv ?(ctr = 0L) key =
         | None -> Bytes.make 8 '\000'
         | Some s ->
             if String.length s = 8
-            || String.length s = 12 && ctr < 0x1_000_000L
+            || String.length s = 12 && ctr >= 0L && ctr < 0x1_0000_0000L
             then Bytes.of_string s
             else raise (Error Wrong_IV_size) in
       chacha20_cook_key key iv ctr
-- 
2.43.0


From 11d8c0e45463c0fadebb4014056e155816f55300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:49 +0000
Subject: [PATCH 06/11] fix: MAC.blake3, MAC.blake3_256: reject empty keys

The key must have length 32.  An empty key was accepted and produced
the unkeyed hash.
---
 src/cryptokit.ml | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e3a3341..dc61c5f 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1469,8 +1469,10 @@ let blake2b512 key = new Hash.blake2b 512 key
 let blake2s sz key = new Hash.blake2s sz key
 let blake2s256 key = new Hash.blake2s 256 key
 
-let blake3 sz key = new Hash.blake3 key sz
-let blake3_256 key = new Hash.blake3 key 256
+let blake3 sz key =
+  if String.length key <> 32 then raise (Error Wrong_key_size);
+  new Hash.blake3 key sz
+let blake3_256 key = blake3 256 key
 
 let aes ?iv ?pad key =
   new Block.mac ?iv ?pad (new Block.aes_encrypt key)
-- 
2.43.0


From 95b7a0beec8975501167c234cd1b3ac856f932ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 07/11] fix: caml_siphash_init: register the key as a root
 across the allocation

---
 src/stubs-siphash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stubs-siphash.c b/src/stubs-siphash.c
index 63278eb..d2c1cd4 100644
--- a/src/stubs-siphash.c
+++ b/src/stubs-siphash.c
@@ -23,9 +23,10 @@
 
 CAMLprim value caml_siphash_init(value key, value hashlen)
 {
+  CAMLparam1(key);
   value ctx = caml_alloc_string(sizeof(struct siphash));
   siphash_init(siphash_val(ctx), &Byte_u(key, 0), Int_val(hashlen));
-  return ctx;
+  CAMLreturn(ctx);
 }
 
 CAMLprim value caml_siphash_update(value ctx, value src, value ofs, value len)
-- 
2.43.0


From 2ab8b684b7180958e9e7067fcf12d0e3d4f8e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 08/11] fix: caml_ghash_init: register the key as a root across
 the allocation

---
 src/stubs-ghash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 479f0dd..08b7aaa 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -40,9 +40,10 @@ static struct custom_operations ghash_context_ops = {
 
 CAMLprim value caml_ghash_init(value key)
 {
+  CAMLparam1(key);
   if (pclmul_available == -1) pclmul_check_available();
   if (pclmul_available == 1) {
-    return key;
+    CAMLreturn(key);
   } else {
     struct ghash_context * ctx = caml_stat_alloc(sizeof(struct ghash_context));
     value res =
@@ -51,7 +52,7 @@ CAMLprim value caml_ghash_init(value key)
                         0, 1);
     ghash_init(ctx, &Byte_u(key, 0));
     Context_val(res) = ctx;
-    return res;
+    CAMLreturn(res);
   }
 }
 
-- 
2.43.0


From 4b081aa09e49eefd962950861c9c1cd8445c9fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 09/11] fix: aesni_key_expansion: read only 24 bytes of a
 192-bit key

---
 src/aesni.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aesni.c b/src/aesni.c
index 7713859..171694b 100644
--- a/src/aesni.c
+++ b/src/aesni.c
@@ -134,7 +134,7 @@ static int aesni_key_expansion(const unsigned char * userkey,
     return 10;
   case 192:
     t1 = _mm_loadu_si128((__m128i*)userkey);
-    t3 = _mm_loadu_si128((__m128i*)(userkey+16));
+    t3 = _mm_loadl_epi64((__m128i*)(userkey+16));
     key_schedule[0] = t1;
     key_schedule[1] = t3;
     t2 = _mm_aeskeygenassist_si128 (t3,0x1);
-- 
2.43.0


From 33fb1e8221f2fee82f1a3c7e71994e417d90605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:07 +0000
Subject: [PATCH 10/11] fix: MD5: do not truncate update lengths to 32 bits

---
 src/stubs-md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stubs-md5.c b/src/stubs-md5.c
index ceccb32..7434eef 100644
--- a/src/stubs-md5.c
+++ b/src/stubs-md5.c
@@ -30,7 +30,7 @@ struct MD5Context {
 
 CAMLextern void caml_MD5Init (struct MD5Context *context);
 CAMLextern void caml_MD5Update (struct MD5Context *context,
-                           unsigned char *buf, unsigned len);
+                           unsigned char *buf, uintnat len);
 CAMLextern void caml_MD5Final (unsigned char *digest, struct MD5Context *ctx);
 
 #define Context_val(v) ((struct MD5Context *) String_val(v))
-- 
2.43.0


From 260b61ceb0efce017bbd19b46a4d45882a5d36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 11/11] fix: Zlib: do not truncate buffer lengths to 32 bits

---
 src/stubs-zlib.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 4cdf7d1..aaf928f 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -92,6 +92,14 @@ value caml_zlib_deflateInit(value vlevel, value expect_header)
   return vzs;
 }
 
+/* zlib counts bytes with 32 bits: larger buffers are processed in several
+   calls, the caller iterates until all its input is used */
+
+static uInt zlib_chunk(value len)
+{
+  return Long_val(len) > 0x7FFFFFFF ? 0x7FFFFFFF : Long_val(len);
+}
+
 static int caml_zlib_flush_table[] = 
 { Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_FINISH };
 
@@ -102,17 +110,18 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
 {
   z_stream * zs = ZStream_val(vzs);
   int retcode;
+  uInt chunk_in, chunk_out;
   long used_in, used_out;
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = chunk_in = zlib_chunk(srclen);
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = chunk_out = zlib_chunk(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   if (retcode < 0) caml_zlib_error("Zlib.deflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = chunk_in - zs->avail_in;
+  used_out = chunk_out - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
   zs->next_out = NULL;        /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
@@ -147,18 +156,19 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
 {
   z_stream * zs = ZStream_val(vzs);
   int retcode;
+  uInt chunk_in, chunk_out;
   long used_in, used_out;
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = chunk_in = zlib_chunk(srclen);
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = chunk_out = zlib_chunk(dstlen);
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   if (retcode < 0 || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = chunk_in - zs->avail_in;
+  used_out = chunk_out - zs->avail_out;
   zs->next_in = NULL;           /* not required, but cleaner */
   zs->next_out = NULL;          /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
-- 
2.43.0

