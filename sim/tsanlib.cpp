// Race-detector annotations for library functions the instrumented code hands objects
// and buffers to (OpenSSL contexts, numbers and points; stdio transfers and buffers;
// libc functions with static state).  Objects are modelled as their first byte.
#include "sim.h"
#include "internal.h"
#include <stdlib.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <netdb.h>
#include <time.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <map>
#include <openssl/evp.h>
#include <openssl/bn.h>
#include <openssl/ec.h>
extern "C" void simtsan_access(const void *p, size_t n, int w, void *pc);
extern "C" void simtsan_new(void *p);
using namespace sim;
#define PC __builtin_return_address(0)
#define W(p) simtsan_access((const void *)(p), 1, 1, PC)
#define R(p) simtsan_access((const void *)(p), 1, 0, PC)
#define WN(p, n) simtsan_access((const void *)(p), (n), 1, PC)
#define RN(p, n) simtsan_access((const void *)(p), (n), 0, PC)
#define FN(ret, name, params, args, before, after) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params { before; ret r_ = __real_##name args; after; return r_; }
#define PROC(name, params, args, before) extern "C" void __real_##name params; extern "C" void __wrap_##name params { before; __real_##name args; }
// --- digests and ciphers
FN(EVP_MD_CTX *, EVP_MD_CTX_new, (void), (), , if (r_) simtsan_new(r_))
FN(int, EVP_DigestInit_ex, (EVP_MD_CTX * c, const EVP_MD *t, ENGINE *e), (c, t, e), W(c), )
FN(int, EVP_DigestUpdate, (EVP_MD_CTX * c, const void *d, size_t n), (c, d, n), W(c); if (n) RN(d, n), )
FN(int, EVP_DigestFinal_ex, (EVP_MD_CTX * c, unsigned char *o, unsigned *l), (c, o, l), W(c), WN(o, 32); if (l) WN(l, 4))
PROC(EVP_MD_CTX_free, (EVP_MD_CTX * c), (c), if (c) W(c))
FN(EVP_CIPHER_CTX *, EVP_CIPHER_CTX_new, (void), (), , if (r_) simtsan_new(r_))
FN(int, EVP_EncryptInit_ex, (EVP_CIPHER_CTX * c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv), (c, t, e, k, iv), W(c); if (k) RN(k, 16); if (iv) RN(iv, 16), )
FN(int, EVP_EncryptUpdate, (EVP_CIPHER_CTX * c, unsigned char *o, int *l, const unsigned char *in, int n), (c, o, l, in, n), W(c); if (n > 0) RN(in, n), if (n > 0) WN(o, n); WN(l, 4))
FN(int, EVP_EncryptFinal_ex, (EVP_CIPHER_CTX * c, unsigned char *o, int *l), (c, o, l), W(c), WN(l, 4))
PROC(EVP_CIPHER_CTX_free, (EVP_CIPHER_CTX * c), (c), if (c) W(c))
// --- numbers
FN(BIGNUM *, BN_new, (void), (), , if (r_) simtsan_new(r_))
PROC(BN_free, (BIGNUM * a), (a), if (a) W(a))
FN(BN_CTX *, BN_CTX_new, (void), (), , if (r_) simtsan_new(r_))
PROC(BN_CTX_free, (BN_CTX * c), (c), if (c) W(c))
FN(BIGNUM *, BN_copy, (BIGNUM * a, const BIGNUM *b), (a, b), R(b); W(a), )
FN(int, BN_num_bits, (const BIGNUM *a), (a), R(a), )
FN(int, BN_bn2bin, (const BIGNUM *a, unsigned char *o), (a, o), R(a), if (r_ > 0) WN(o, r_))
FN(BIGNUM *, BN_bin2bn, (const unsigned char *s, int n, BIGNUM *r), (s, n, r), if (n > 0) RN(s, n); if (r) W(r), if (!r && r_) simtsan_new(r_))
FN(int, BN_add, (BIGNUM * r, const BIGNUM *a, const BIGNUM *b), (r, a, b), R(a); R(b); W(r), )
FN(int, BN_sub, (BIGNUM * r, const BIGNUM *a, const BIGNUM *b), (r, a, b), R(a); R(b); W(r), )
FN(int, BN_mul, (BIGNUM * r, const BIGNUM *a, const BIGNUM *b, BN_CTX *c), (r, a, b, c), R(a); R(b); W(r); if (c) W(c), )
FN(int, BN_mod_mul, (BIGNUM * r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *m, BN_CTX *c), (r, a, b, m, c), R(a); R(b); R(m); W(r); if (c) W(c), )
FN(int, BN_mod_add, (BIGNUM * r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *m, BN_CTX *c), (r, a, b, m, c), R(a); R(b); R(m); W(r); if (c) W(c), )
FN(int, BN_div, (BIGNUM * q, BIGNUM *r, const BIGNUM *a, const BIGNUM *b, BN_CTX *c), (q, r, a, b, c), R(a); R(b); if (q) W(q); if (r) W(r); if (c) W(c), )
FN(int, BN_nnmod, (BIGNUM * r, const BIGNUM *a, const BIGNUM *b, BN_CTX *c), (r, a, b, c), R(a); R(b); W(r); if (c) W(c), )
FN(int, BN_rand_range, (BIGNUM * r, const BIGNUM *m), (r, m), R(m); W(r), )
// --- curve
FN(EC_GROUP *, EC_GROUP_new_by_curve_name, (int n), (n), , if (r_) simtsan_new(r_))
PROC(EC_GROUP_free, (EC_GROUP * g), (g), if (g) W(g))
FN(int, EC_GROUP_get_order, (const EC_GROUP *g, BIGNUM *o, BN_CTX *c), (g, o, c), R(g); W(o); if (c) W(c), )
FN(EC_POINT *, EC_POINT_new, (const EC_GROUP *g), (g), R(g), if (r_) simtsan_new(r_))
PROC(EC_POINT_free, (EC_POINT * p), (p), if (p) W(p))
FN(int, EC_POINT_copy, (EC_POINT * a, const EC_POINT *b), (a, b), R(b); W(a), )
FN(int, EC_POINT_add, (const EC_GROUP *g, EC_POINT *r, const EC_POINT *a, const EC_POINT *b, BN_CTX *c), (g, r, a, b, c), R(g); R(a); R(b); W(r); if (c) W(c), )
FN(int, EC_POINT_mul, (const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m, BN_CTX *c), (g, r, n, q, m, c), R(g); if (n) R(n); if (q) R(q); if (m) R(m); W(r); if (c) W(c), )
FN(int, EC_POINT_invert, (const EC_GROUP *g, EC_POINT *r, BN_CTX *c), (g, r, c), R(g); W(r); if (c) W(c), )
FN(int, EC_POINT_cmp, (const EC_GROUP *g, const EC_POINT *a, const EC_POINT *b, BN_CTX *c), (g, a, b, c), R(g); R(a); R(b); if (c) W(c), )
FN(size_t, EC_POINT_point2oct, (const EC_GROUP *g, const EC_POINT *p, point_conversion_form_t f, unsigned char *o, size_t n, BN_CTX *c), (g, p, f, o, n, c), R(g); R(p); if (c) W(c), if (o && r_) WN(o, r_))
FN(int, EC_POINT_oct2point, (const EC_GROUP *g, EC_POINT *p, const unsigned char *i, size_t n, BN_CTX *c), (g, p, i, n, c), R(g); W(p); if (n) RN(i, n); if (c) W(c), )
// --- stdio: user buffers, and buffers lent to streams
static std::map<FILE *, std::pair<char *, size_t>> *lent;
static void stream_use(FILE *f, void *pc) { char *b = nullptr; { Harness h; if (lent) { auto it = lent->find(f); if (it != lent->end()) b = it->second.first; } } if (b) simtsan_access(b, 8, 1, pc); }
extern "C" int __real_setvbuf(FILE *, char *, int, size_t);
extern "C" int __wrap_setvbuf(FILE *f, char *b, int m, size_t n) { if (b && n >= 8 && g_cur_is_task()) { { Harness h; if (!lent) lent = new std::map<FILE *, std::pair<char *, size_t>>(); (*lent)[f] = {b, n}; } WN(b, 8); } return __real_setvbuf(f, b, m, n); }
FN(size_t, fread, (void *p, size_t s, size_t n, FILE *f), (p, s, n, f), stream_use(f, PC), if (r_ && s) WN(p, r_ * s))
FN(size_t, fwrite, (const void *p, size_t s, size_t n, FILE *f), (p, s, n, f), if (s && n) RN(p, s * n); stream_use(f, PC), )
FN(int, fflush, (FILE * f), (f), if (f) stream_use(f, PC), )
extern "C" void simtsan_fclose(FILE *f, void *pc) { if (!g_cur_is_task()) return; stream_use(f, pc); Harness h; if (lent) lent->erase(f); }
static int scan(FILE *f, const char *fmt, va_list ap, void *pc) {
  va_list c; va_copy(c, ap); int r = vfscanf(f, fmt, ap), left = r;
  for (const char *p = fmt; *p && left > 0; p++) {
    if (*p != '%') continue; p++; if (*p == '%') continue; bool skip = false; if (*p == '*') { skip = true; p++; } while (*p >= '0' && *p <= '9') p++;
    int l = 0; while (*p == 'l' || *p == 'z') { l++; p++; } if (skip) continue; if (*p == 'h' || *p == '[' || !*p) break; void *d = va_arg(c, void *); left--;
    if (*p == 's') simtsan_access(d, strlen((char *)d) + 1, 1, pc); else if (strchr("diuxX", *p)) simtsan_access(d, l ? 8 : 4, 1, pc); else if (*p == 'c') simtsan_access(d, 1, 1, pc); else break;
  }
  va_end(c); return r;
}
extern "C" int __wrap_fscanf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = scan(f, fmt, a, PC); va_end(a); return r; }
extern "C" int __wrap___isoc99_fscanf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = scan(f, fmt, a, PC); va_end(a); return r; }
extern "C" int __wrap___isoc23_fscanf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = scan(f, fmt, a, PC); va_end(a); return r; }
extern "C" int __wrap_snprintf(char *b, size_t n, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vsnprintf(b, n, fmt, a); va_end(a); if (n && r >= 0) WN(b, (size_t)r < n ? r + 1 : n); return r; }
extern "C" int __wrap_sprintf(char *b, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vsprintf(b, fmt, a); va_end(a); if (r >= 0) WN(b, r + 1); return r; }
FN(char *, strcpy, (char *d, const char *s), (d, s), { size_t n = strlen(s) + 1; RN(s, n); WN(d, n); }, )
FN(char *, strncpy, (char *d, const char *s, size_t n), (d, s, n), { size_t k = strnlen(s, n); if (k) RN(s, k); if (n) WN(d, n); }, )
FN(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), if (n) { RN(a, n); RN(b, n); }, )
// --- functions with static state
static char st_tok, st_time, st_host, st_ntoa, st_48;
FN(char *, strtok, (char *s, const char *d), (s, d), W(&st_tok), )
FN(struct tm *, localtime, (const time_t *t), (t), W(&st_time), )
FN(struct tm *, gmtime, (const time_t *t), (t), W(&st_time), )
FN(char *, ctime, (const time_t *t), (t), W(&st_time), )
FN(char *, asctime, (const struct tm *t), (t), W(&st_time), )
FN(struct hostent *, gethostbyname, (const char *n), (n), W(&st_host), )
FN(char *, inet_ntoa, (struct in_addr a), (a), W(&st_ntoa), )
FN(double, drand48, (void), (), W(&st_48), )
FN(long, lrand48, (void), (), W(&st_48), )
// memory OpenSSL allocates for its objects is fresh memory to the race detector
extern "C" void *__wrap_malloc(size_t); extern "C" void *__wrap_realloc(void *, size_t);
static void *o_malloc(size_t n, const char *, int) { return n ? __wrap_malloc(n) : nullptr; }
static void *o_realloc(void *p, size_t n, const char *, int) { return __wrap_realloc(p, n); }
static void o_free(void *p, const char *, int) { free(p); }
__attribute__((constructor(101))) static void o_init() { if (!CRYPTO_set_mem_functions(o_malloc, o_realloc, o_free)) { fprintf(stderr, "cannot hook OpenSSL memory\n"); abort(); } }
