"""planted bugs (never committed in /repo): see seed.py"""
BUGS = []


def bug(id, property, edits, needs, breaks, ml, **kw):
    BUGS.append(dict(id=id, property=property, edits=[("src/" + f, o, n) for f, o, n in edits], needs=needs, breaks=breaks, ml=ml, **kw))


PRE = """open Cryptokit
let check n b = if not b then (prerr_endline ("FAIL " ^ n); exit 1)
"""


def grep(f, a, b):
    """the text of src/f from a up to (not including) b"""
    t = open("/repo/src/" + f).read()
    i = t.index(a)
    return t[i:t.index(b, i)]


CPRE = """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define CHECK(n, c) do { if (!(c)) { fprintf(stderr, "FAIL %s\\n", n); exit(1); } } while (0)
"""

bug("xor-tail", "P02", [("stubs-misc.c", """    while (l >= sizeof(uintnat)) {
      *((uintnat *) d)""", """    while (l > 0) {
      *((uintnat *) d)""")],
    "a xor of 64 bytes or more whose length (after alignment) is not a multiple of the word size, with bytes after the window",
    "xor_string also modifies up to 7 bytes after the destination window (and reads past the source window)",
    PRE + """let () =
  for l = 64 to 90 do
    let s = Bytes.make 128 'a' and d = Bytes.make 128 'b' in
    xor_bytes s 0 d 0 l;
    for i = 0 to 127 do
      let e = if i < l then Char.chr (Char.code 'a' lxor Char.code 'b') else 'b' in
      check "window" (Bytes.get d i = e)
    done
  done
""")

bug("blake2b-final-root", "P03", [("stubs-blake2.c", """  CAMLparam1(ctx);
  CAMLlocal1(res);
  int len = Int_val(hashlen);
  res = caml_alloc_string(len);
  blake2b_final(blake2b_val(ctx), len, &Byte_u(res, 0));
  CAMLreturn(res);""", """  int len = Int_val(hashlen);
  value res = caml_alloc_string(len);

  blake2b_final(blake2b_val(ctx), len, &Byte_u(res, 0));
  return res;""")],
    "a minor collection triggered by the allocation of the result while the context is still in the minor heap",
    "the context pointer is stale: the digest is computed from memory the collector has reused",
    PRE + """let msg = String.make 128 'm'
let tag n =
  let h = Hash.blake2b512 () in
  h#add_string msg;
  let keep = ref [] in
  for i = 1 to n do keep := (Sys.opaque_identity i) :: !keep done;
  let r = h#result in
  ignore (Sys.opaque_identity !keep); r
let () =
  let expected = tag 0 in
  Gc.full_major ();
  let size = (Gc.get ()).Gc.minor_heap_size in
  for n = size / 3 - 120 to size / 3 do Gc.minor (); check "tag" (tag n = expected) done
""")

bug("chacha-static", "P17", [
    ("chacha20.c", "static void chacha20_block(chacha20_ctx * ctx)\n{", "static uint8_t keystream[64];\n\nstatic void chacha20_block(chacha20_ctx * ctx)\n{"),
    ("chacha20.c", "  /* Increment the 32- or 64-bit counter */", "  memcpy(keystream, ctx->output, 64);\n  /* Increment the 32- or 64-bit counter */"),
    ("chacha20.c", "    *out++ = *in++ ^ ctx->output[n++];", "    *out++ = *in++ ^ keystream[n++];")],
    "two ChaCha20 objects used alternately, one of them stopping in the middle of a 64-byte block",
    "the key stream block is kept in a static buffer shared by all objects",
    PRE + """let () =
  let mk k = new Stream.chacha20 (String.make 32 k) in
  let run c n = let s = Bytes.make n 'x' and d = Bytes.create n in c#transform s 0 d 0 n; Bytes.to_string d in
  let a = mk 'a' in
  let e1 = run a 10 in let e2 = run a 10 in
  let a = mk 'a' and b = mk 'b' in
  let r1 = run a 10 in
  ignore (run b 5);
  let r2 = run a 10 in
  check "interleaved" (e1 = r1 && e2 = r2)
""")

bug("sha256-inplace", "P16", [("sha256.c", """  while (len >= 64) {
    memcpy(ctx->buffer, data, 64);
    SHA256_transform(ctx);
    data += 64;""", """  while (len >= 64) {
    memcpy(ctx->buffer, data, 64);
    SHA256_transform(ctx);
    if (len >= 4096) memset(data, 0, 64);   /* erase what has been absorbed */
    data += 64;""")],
    "a single update of 4096 bytes or more", "hashing erases the caller's string",
    PRE + """let () =
  let s = String.make 10000 'q' in
  ignore (hash_string (Hash.sha256 ()) s);
  check "input unchanged" (s = String.make 10000 'q')
""")

bug("rng-mid-failure", "P08", [("stubs-rng.c", """  while (l > 0) {
    int n = l < 256 ? l : 256;
    if (getentropy(p, n) == -1) return Val_false;
    p += n; l -= n;
  }
  return Val_true;
}

#elif defined(_WIN32)""", """  int rc = 0;
  while (l > 0) {
    int n = l < 256 ? l : 256;
    rc = getentropy(p, n);
    p += n; l -= n;
  }
  return Val_bool(rc != -1);
}

#elif defined(_WIN32)""")],
    "a request of more than 256 bytes in which getentropy() fails for a chunk that is not the last",
    "only the status of the last chunk is reported: the failing chunk is returned unfilled",
    None, c=CPRE + """#define HAVE_GETENTROPY 1
#define getentropy fake_getentropy
#include <unistd.h>
#include <stddef.h>
static int calls;
int fake_getentropy(void * p, size_t n)
{ if (++calls == 2) return -1; memset(p, 0xA5, n); return 0; }
#include "stubs-rng.c"
/* the parts of the runtime the stub refers to on some systems */
void caml_raise_not_found(void) { abort(); }
value caml_alloc(mlsize_t a, tag_t b) { abort(); }
int main(void)
{
  static uintnat blk[130];
  blk[0] = ((uintnat) 128 << 10) + String_tag;
  value s = (value) &blk[1];
  value r = caml_system_rng_random_bytes(Val_unit, s, Val_long(0), Val_long(768));
  int filled = 1;
  for (int i = 0; i < 768; i++) if (Byte_u(s, i) != 0xA5) filled = 0;
  CHECK("success reported for a window that is not filled", r == Val_false || filled);
  return 0;
}
""")

bug("zlib-need-dict", "P15", [("stubs-zlib.c", "  if (retcode < 0 || retcode == Z_NEED_DICT)\n", "  if (retcode < 0)\n")],
    "a compressed stream that starts with the preset-dictionary flag",
    "the failure (a dictionary is needed) is not reported; the transform makes no progress any more",
    PRE + """let () =
  (* zlib header with FDICT set, then a dictionary id *)
  let s = "\\x78\\xbb\\x12\\x34\\x56\\x78" ^ String.make 20 'x' in
  ignore (Unix.alarm 10);
  match transform_string (Zlib.uncompress ~expect_zlib_header:true ()) s with
  | _ -> check "no error reported" false
  | exception Error (Compression_error _) -> ()
""")

bug("arcfour-bytecode", "P14", [("stubs-arcfour.c", """                                argv[3], argv[4], argv[5]);""",
                                 """                                argv[3], argv[2], argv[5]);""")],
    "a bytecode program that transforms at different source and destination offsets",
    "the bytecode entry point passes the source offset as destination offset",
    PRE + """let () =
  let key = "0123456789abcdef" in
  let enc so dof =
    let c = Cipher.arcfour key Cipher.Encrypt in
    c#put_substring (Bytes.of_string (String.make so 'z' ^ "hello")) so 5;
    ignore dof; c#get_string in
  let a = enc 0 0 in
  for so = 0 to 40 do check "offset" (enc so 0 = a) done
""", bytecode=True)

B2S = grep("blake2.c", "static void blake2s_compress", "v12 = blake2s_iv")
bug("blake2s-carry", "P12", [("blake2.c", B2S, B2S.replace("if (s->len[0] < numbytes)", "if (is_last_block && s->len[0] < numbytes)"))],
    "a BLAKE2s message of 4 Gbytes or more (or an equivalent context)",
    "the carry from the low to the high word of the message length is lost",
    None, c=CPRE + """#undef EXPORT
#define EXPORT static
#include "blake2.c"
int main(void)
{
  static struct blake2s s;
  static unsigned char d[1 << 20], h[32];
  blake2s_init(&s, 32, 0, NULL);
  /* as after 2^32 - 2^20 bytes */
  s.len[0] = 0xFFF00000U; s.len[1] = 0;
  blake2s_add_data(&s, d, sizeof d);
  blake2s_add_data(&s, d, sizeof d);
  blake2s_final(&s, 32, h);
  CHECK("length", s.len[0] == 0x00100000U && s.len[1] == 1);
  return 0;
}
""")

bug("sha3-exact-fill", "P11", [("keccak.c", """    n = ctx->rsiz - ctx->numbytes;
    if (len < n) {""", """    n = ctx->rsiz - ctx->numbytes;
    if (len <= n) {""")],
    "an update that exactly completes a partially filled block, as the last one before the digest",
    "the full block stays in the buffer and the padding is written after it: wrong digest",
    PRE + """let () =
  List.iter (fun (sz, r) ->
    let msg = String.init (2 * r) (fun i -> Char.chr (i land 255)) in
    let whole = hash_string (Hash.sha3 sz) msg in
    for k = 1 to 2 * r - 1 do
      let h = Hash.sha3 sz in
      h#add_substring (Bytes.of_string msg) 0 k;
      h#add_substring (Bytes.of_string msg) k (2 * r - k);
      check "split" (h#result = whole)
    done) [224, 144; 256, 136; 384, 104; 512, 72]
""")

bug("chacha-carry", "P13", [("chacha20.c", """  if (++ ctx->input[12] == 0) {
    if (ctx->iv_length == 8) ++ ctx->input[13];
  }""", """  ++ ctx->input[12];
  if ((ctx->input[12] & 0x7FFFFFFF) == 0 && ctx->iv_length == 8) ++ ctx->input[13];""")],
    "an 8-byte IV and a block counter that crosses 2^31",
    "the counter jumps at 2^31 and comes back to values already used",
    PRE + """let ks ctr n =
  let c = Cipher.chacha20 ~iv:"12345678" ~ctr (String.make 32 'k') Cipher.Encrypt in
  transform_string c (String.make n '\\000')
let () =
  List.iter (fun c ->
    let a = ks c 256 in
    for i = 0 to 3 do
      check "block" (String.sub a (64 * i) 64 = ks (Int64.add c (Int64.of_int i)) 64)
    done) [0L; 0x7FFFFFFEL; 0xFFFFFFFEL; 0x1_7FFFFFFFL]
""")

AESC = CPRE + """#undef EXPORT
#define EXPORT static
#include "rijndael-alg-fst.c"
int main(void)
{
  static u32 ek[4 * (MAXNR + 1)], dk[4 * (MAXNR + 1)];
  u8 key[32], in[16], mid[16], out[16];
  uint32_t z = 12345;
  for (int it = 0; it < 4000; it++) {
    int bits = 128 + 64 * (it % 3);
    for (int i = 0; i < 32; i++) { z = z * 1103515245u + 12345u; key[i] = z >> 16; }
    for (int i = 0; i < 16; i++) { z = z * 1103515245u + 12345u; in[i] = z >> 16; }
    int nr = rijndaelKeySetupEnc(ek, key, bits);
    rijndaelEncrypt(ek, nr, in, mid);
    rijndaelKeySetupDec(dk, key, bits);
    rijndaelDecrypt(dk, nr, mid, out);
    CHECK("decrypt(encrypt)", memcmp(in, out, 16) == 0);
  }
  return 0;
}
"""
bug("aes-td4", "P22", [("rijndael-alg-fst.c", "0x52525252U, 0x09090909U", "0x52525252U, 0x09090908U")],
    "a processor without AES instructions, and a decryption in which the inverse S-box is looked up at 1 in the last column position",
    "software AES decryption returns a wrong plaintext", None, c=AESC)

bug("ghash-sw-carry", "P23", [("ghash.c", "if( i != 15 ) {", "if( i < 14 ) {")],
    "a processor without carry-less multiplication", "the portable GHASH computes another function", None, c=CPRE + """#undef EXPORT
#define EXPORT static
#include "ghash.c"
/* x * H, bit by bit */
static void ref(const uint8_t h[16], const uint8_t x[16], uint8_t z[16])
{
  uint8_t v[16]; memcpy(v, h, 16); memset(z, 0, 16);
  for (int i = 0; i < 128; i++) {
    if (x[i / 8] >> (7 - i % 8) & 1) for (int j = 0; j < 16; j++) z[j] ^= v[j];
    int lsb = v[15] & 1;
    for (int j = 15; j > 0; j--) v[j] = v[j] >> 1 | v[j - 1] << 7;
    v[0] >>= 1; if (lsb) v[0] ^= 0xe1;
  }
}
int main(void)
{
  static struct ghash_context c;
  uint8_t h[16], x[16], a[16], b[16]; uint32_t z = 99;
  for (int it = 0; it < 200; it++) {
    for (int i = 0; i < 16; i++) { z = z * 1103515245u + 12345u; h[i] = z >> 16; x[i] = z >> 24; }
    ghash_init(&c, h); ghash_mult(&c, x, a); ref(h, x, b);
    CHECK("ghash", memcmp(a, b, 16) == 0);
  }
  return 0;
}
""")

bug("wipez-size", "P05", [("stubs-misc.c", "(Wosize_val(v) - 1) * sizeof(value)", "(Wosize_val(v) - 1) * sizeof(int)")],
    "wiping a big integer of more than one word", "only the first half of the words is erased",
    PRE + """let () =
  for n = 1 to 20 do
    let z = Z.of_string ("1" ^ String.make (20 * n) '7') in
    let o = Obj.repr z in
    CryptokitBignum.wipe (Obj.magic z : CryptokitBignum.t);
    for i = 1 to Obj.size o - 1 do
      check "limb" (Obj.raw_field o i = 0n)
    done
  done
""")

bug("sha3-wipe-ptr", "P04", [("stubs-sha3.c", "memset(Context_val(ctx), 0, sizeof(struct SHA3Context));", "memset(Context_val(ctx), 0, sizeof(Context_val(ctx)));")],
    "observing the memory of a wiped SHA-3 context", "only the first 8 bytes are erased before the memory is freed", None,
    c=CPRE + """#undef EXPORT
#define EXPORT static
#define caml_stat_free fake_free
#define caml_stat_alloc fake_alloc
#define caml_alloc_custom fake_custom
#define CAML_NAME_SPACE
static unsigned char heap[4096]; static int freed, left;
void fake_free(void * p) { freed = 1; for (unsigned i = 0; i < sizeof heap; i++) if (heap[i]) left++; }
void * fake_alloc(unsigned long n) { return heap; }
#include "stubs-sha3.c"
static uintnat blk[4];
value fake_custom(struct custom_operations * o, uintnat s, mlsize_t a, mlsize_t b) { return (value) &blk[1]; }
value caml_alloc_string(mlsize_t n) { abort(); }
void caml_raise_out_of_memory(void) { abort(); }
#if OCAML_VERSION_MAJOR >= 5
#else
struct caml_state_fake; 
#endif
int main(void)
{
  value ctx = caml_sha3_init(Val_int(256));
  unsigned char d[200]; memset(d, 0x5a, sizeof d);
  SHA3_absorb(Context_val(ctx), d, sizeof d);
  caml_sha3_wipe(ctx);
  CHECK("freed", freed);
  CHECK("secret left in freed memory", left == 0);
  return 0;
}
""", cflags="-Wl,--unresolved-symbols=ignore-all")

bug("xor-tail-word", "P18", [("stubs-misc.c", """      l -= sizeof(uintnat);
    }
  }""", """      l -= sizeof(uintnat);
    }
    if (l > 0) {
      /* the remaining bytes, with the word that ends at the last one */
      s = s + l - sizeof(uintnat);
      d = d + l - sizeof(uintnat);
      *((uintnat *) d) ^= *((uintnat *) s);
      l = 0;
    }
  }""")],
    "a xor of 64 bytes or more whose length (after alignment) is not a multiple of the word size",
    "the bytes the last word shares with the previous one are xored twice",
    PRE + """let () =
  for o = 0 to 9 do
    for l = 0 to 200 do
      let s = Bytes.init 256 (fun i -> Char.chr (i * 7 land 255)) and d = Bytes.init 256 (fun i -> Char.chr (i * 13 land 255)) in
      let e = Bytes.init 256 (fun i -> if i >= o && i < o + l then Char.chr (((i * 7) lxor (i * 13)) land 255) else Bytes.get d i) in
      xor_bytes s o d o l;
      check "xor" (d = e)
    done
  done
""")

bug("blake2b-odd-length", "P10", [("blake2.c", """  blake2b_compress(s, s->buffer, s->numbytes, 1);
  /* Extract the hash */
  for (i = 0; i < hashlen; i++) {
    hash[i] = s->h[i / 8] >> (8 * (i % 8));
  }""", """  blake2b_compress(s, s->buffer, s->numbytes, 1);
  /* Extract the hash */
  for (i = 0; i < (hashlen & ~3u); i++) {
    hash[i] = s->h[i / 8] >> (8 * (i % 8));
  }""")],
    "a BLAKE2b digest size that is not a multiple of 32 bits", "the last bytes of the digest are not produced",
    PRE + """let () =
  let h sz = hash_string (Hash.blake2b sz) "abc" in
  let seen = Hashtbl.create 7 in
  for i = 0 to 63 do
    let k = String.make (i * 37) 'x' in
    let d = hash_string (Hash.blake2b 248) k in
    check "size" (String.length d = 31);
    Hashtbl.replace seen (String.sub d 28 3) ()
  done;
  ignore h;
  check "last bytes vary" (Hashtbl.length seen > 32)
""")

bug("poly1305-fold", "P23", [("poly1305-donna-64.h", """	h2 += c;     c = (h2 >> 42); h2 &= 0x3ffffffffff;
	h0 += c * 5; c = (h0 >> 44); h0 &= 0xfffffffffff;
	h1 += c;     c = (h1 >> 44); h1 &= 0xfffffffffff;
""", """	h2 += c;     c = (h2 >> 42); h2 &= 0x3ffffffffff;
	h0 += c;     c = (h0 >> 44); h0 &= 0xfffffffffff;
	h1 += c;     c = (h1 >> 44); h1 &= 0xfffffffffff;
""")],
    "a message whose last product lies just below a multiple of 2^130, so that all the limbs carry in the final reduction",
    "the carry out of the top limb is folded back without its factor 5", None, c=CPRE + """#undef EXPORT
#define EXPORT
#include "poly1305-donna.c"
int main(void)
{
  /* r = 2, s = 0, blocks 0 and 2^128 - 2: (2 * 2^128 + 2^128 - 2 + 2^128) * 2 = 2^131 - 4 = 6 modulo 2^130 - 5 */
  poly1305_context c;
  unsigned char key[32] = { 2 }, msg[32] = { 0 }, mac[16];
  memset(msg + 16, 255, 16); msg[16] = 254;
  poly1305_init(&c, key); poly1305_update(&c, msg, 32); poly1305_finish(&c, mac);
  CHECK("tag", mac[0] == 6);
  for (int i = 1; i < 16; i++) CHECK("tag", mac[i] == 0);
  return 0;
}
""")
