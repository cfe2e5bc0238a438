// Environment of the symbolic build: in-memory files, C library, zlib contract model, OpenSSL as ideal primitives, UTC calendar.
#include <cctype>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <openssl/aes.h>
#include <openssl/sha.h>
#include "zmodel.h"

// ------------------------------------------------------------------ files
struct KFile { char name[64]; unsigned char *data; unsigned long size, cap; bool used; };
static KFile g_files[16];
static uint64_t g_limit = ~0ull;      // bytes that can still be written before a fault
static int g_fault;                    // 0 persistent (a partial write, then none), 1 transient (one write call fails), 2 closing fails
struct KHandle { int file; int mode; bool used; };
static KHandle g_handles[32];
static int kfind(const char *n) { for (int i = 0; i < 16; i++) if (g_files[i].used && !strcmp(g_files[i].name, n)) return i; return -1; }
static int kcreate(const char *n) {
  int i = kfind(n); if (i >= 0) return i;
  for (i = 0; i < 16; i++) if (!g_files[i].used) { g_files[i].used = true; strcpy(g_files[i].name, n); g_files[i].data = nullptr; g_files[i].size = g_files[i].cap = 0; return i; }
  kp_unsupported("too many files"); return -1;
}
static void kreserve(KFile &f, unsigned long n) {
  if (n <= f.cap) return;
  unsigned long c = f.cap ? f.cap : 256; while (c < n) c *= 2;
  unsigned char *p = (unsigned char *)malloc(c); if (f.size) memcpy(p, f.data, f.size); free(f.data); f.data = p; f.cap = c;
}
extern "C" {
const char *kp_fs_dir(void) { return ""; }
void kp_fs_put(const char *n, const void *p, size_t sz) { KFile &f = g_files[kcreate(n)]; f.size = 0; kreserve(f, sz + 1); if (sz) memcpy(f.data, p, sz); f.size = sz; }
size_t kp_fs_size(const char *n) { int i = kfind(n); return i < 0 ? (size_t)-1 : g_files[i].size; }
void kp_fs_get(const char *n, void *p, size_t sz) { int i = kfind(n); if (i >= 0 && sz) memcpy(p, g_files[i].data, sz); }
void kp_fs_fault(uint64_t b, int kind) { g_limit = b; g_fault = kind; }
int kpfs_open(const char *path, int mode) {
  size_t l = strlen(path); if (l >= 63 || !l || strchr(path, '/')) return -1;          // there is one directory

  int i = kfind(path);
  if (i < 0) { if (!(mode & 2) || (mode & 1)) return -1; i = kcreate(path); }
  if (mode & 4) g_files[i].size = 0;
  for (int h = 0; h < 32; h++) if (!g_handles[h].used) { g_handles[h].used = true; g_handles[h].file = i; g_handles[h].mode = mode; return h; }
  kp_unsupported("too many open files"); return -1;
}
bool kpfs_close(int h) { g_handles[h].used = false; if (g_fault == 2 && (g_handles[h].mode & 2)) { g_fault = 0; return false; } return true; }
unsigned long kpfs_size(int h) { return g_files[g_handles[h].file].size; }
const char *kpfs_data(int h) { return (const char *)g_files[g_handles[h].file].data; }
unsigned long kpfs_write(int h, unsigned long pos, const char *p, unsigned long n) {
  KFile &f = g_files[g_handles[h].file];
  if (g_limit != ~0ull) {
    if (n > g_limit) {
      unsigned long w = g_limit;
      if (g_fault == 1) { g_limit = ~0ull; return 0; }
      g_limit = 0; if (!kp_is_symbolic(w) && !w) return 0;
      kreserve(f, pos + n); memcpy(f.data + pos, p, n);          // bytes behind the (possibly symbolic) size cannot be seen
      f.size = pos + w; return w;
    }
    g_limit -= n;
  }
  if (!n) return 0;
  kreserve(f, pos + n);
  if (pos > f.size) memset(f.data + f.size, 0, pos - f.size);
  memcpy(f.data + pos, p, n);
  if (pos + n > f.size) f.size = pos + n;
  return n;
}
int remove(const char *path) { int i = kfind(path); if (i < 0) return -1; g_files[i].used = false; return 0; }
int unlink(const char *path) { return remove(path); }
int rename(const char *a, const char *b) {
  int i = kfind(a); if (i < 0 || strlen(b) >= 63) return -1;
  int j = kfind(b); if (j == i) return 0; if (j >= 0) g_files[j].used = false;
  strcpy(g_files[i].name, b); return 0;
}

// ------------------------------------------------------------------ string.h / ctype.h / stdlib.h
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *kpm_strchr(const char *a, int c) { for (;; a++) { if (*a == (char)c) return (char *)a; if (!*a) return nullptr; } }
char *kpm_strrchr(const char *a, int c) { const char *r = nullptr; for (;; a++) { if (*a == (char)c) r = a; if (!*a) return (char *)r; } }
char *kpm_strstr(const char *a, const char *b) { size_t n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char *)a; if (!*a) return nullptr; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
static int g_errno;
size_t kpm_strcspn(const char *s, const char *r) { size_t n = 0; for (; s[n]; n++) for (const char *q = r; *q; q++) if (*q == s[n]) return n; return n; }
size_t kpm_strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (!*q) return n; } return n; }
char *kpm_strpbrk(const char *s, const char *a) { for (; *s; s++) for (const char *q = a; *q; q++) if (*q == *s) return (char *)s; return nullptr; }
char *kpm_strncat(char *d, const char *s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char *kpm_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
char *kpm_stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
int kpm_strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
int kpm_strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } return 0; }
void kpm_qsort(void *b, size_t n, size_t w, int (*f)(const void *, const void *)) {
  char *p = (char *)b, *t = (char *)malloc(w + 1);
  for (size_t i = 1; i < n; i++) { size_t j = i; memcpy(t, p + i * w, w); while (j && f(p + (j - 1) * w, t) > 0) { memcpy(p + j * w, p + (j - 1) * w, w); j--; } memcpy(p + j * w, t, w); }
  free(t);
}
static unsigned g_rand = 1;
void kpm_srand(unsigned s) { g_rand = s; }
int kpm_rand(void) { g_rand = g_rand * 1103515245u + 12345u; return (int)(g_rand >> 1); }
int kpm_pthread_mutex_lock(void *) { return 0; }
int kpm_pthread_mutex_unlock(void *) { return 0; }
int kpm_pthread_mutex_trylock(void *) { return 0; }
int kpm_pthread_once(int *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
// printf family: flags - 0 + space #, width and precision, d i u x X o c s p and the length modifiers; a symbolic number forks on its length
static size_t kfmt(char *o, size_t cap, const char *f, __builtin_va_list ap) {
  size_t n = 0;
#define KP_OUT(ch) do { char kc = (ch); if (n + 1 < cap) o[n] = kc; n++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { KP_OUT(*f); continue; }
    f++; if (*f == '%') { KP_OUT('%'); continue; }
    bool left = false, zero = false, plus = false, space = false, alt = false;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    int width = 0, prec = -1, len = 0;
    if (*f == '*') { width = __builtin_va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = __builtin_va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') len = 8; else if (*f == 'h') len = len == 2 ? 1 : 2; else break; }
    char b[80]; int i = 80; char pre[3]; int np = 0; const char *s = nullptr; long sl = 0;
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o' || *f == 'p') {
      bool sg = *f == 'd' || *f == 'i'; unsigned long v; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
      if (*f == 'p') { kp_unsupported("pointer formatting"); return 0; }
      if (len == 8) v = __builtin_va_arg(ap, unsigned long); else { unsigned w = __builtin_va_arg(ap, unsigned); if (len == 2) w = sg ? (unsigned)(int)(short)w : (unsigned short)w; else if (len == 1) w = sg ? (unsigned)(int)(signed char)w : (unsigned char)w; v = sg ? (unsigned long)(long)(int)w : w; }
      bool neg = sg && kp_concretize((long)v < 0); if (neg) v = -v;
      char a = *f == 'X' ? 'A' - 10 : 'a' - 10;
      bool wide = kp_is_symbolic(v) ? !kp_concretize(v >> 32 == 0) : false;
      bool zerov = kp_is_symbolic(v) ? kp_concretize(v == 0) : v == 0;
      if (!(zerov && prec == 0)) {
        if (!kp_is_symbolic(v)) { unsigned long q = v; do { unsigned d = (unsigned)(q % base); b[--i] = (char)(d > 9 ? a + (int)d : '0' + (int)d); q /= base; } while (q); }
        else if (!wide) { unsigned w = (unsigned)v, p = 1; for (;;) { unsigned d = w / p % base; b[--i] = (char)('0' + d + (d > 9 ? (unsigned)(a - '0') : 0)); unsigned long q = (unsigned long)p * base; if (q >> 32 || kp_concretize(w < (unsigned)q)) break; p = (unsigned)q; } }
        else { unsigned long p = 1; for (;;) { unsigned long d = v / p % base; b[--i] = (char)('0' + d + (d > 9 ? (unsigned)(a - '0') : 0)); unsigned __int128 q = (unsigned __int128)p * base; if ((unsigned long)(q >> 64) || kp_concretize(v < (unsigned long)q)) break; p = (unsigned long)q; } }
      }
      while (prec > 80 - i && i > 0) b[--i] = '0';
      if (neg) pre[np++] = '-'; else if (sg && plus) pre[np++] = '+'; else if (sg && space) pre[np++] = ' ';
      if (alt && base == 8 && (i == 80 || b[i] != '0')) b[--i] = '0';
      if (alt && base == 16 && !zerov) { pre[np++] = '0'; pre[np++] = *f; }
      s = b + i; sl = 80 - i; if (prec >= 0) zero = false;
    } else if (*f == 'c') { b[0] = (char)__builtin_va_arg(ap, int); s = b; sl = 1; zero = false; }
    else if (*f == 's') { s = __builtin_va_arg(ap, const char *); if (!s) s = "(null)"; while ((prec < 0 || sl < prec) && s[sl]) sl++; zero = false; }
    else { kp_unsupported("printf conversion"); return 0; }
    int pad = width - (int)sl - np;
    if (!left && !zero) while (pad-- > 0) KP_OUT(' ');
    for (int k = 0; k < np; k++) KP_OUT(pre[k]);
    if (!left && zero) while (pad-- > 0) KP_OUT('0');
    for (long k = 0; k < sl; k++) KP_OUT(s[k]);
    if (left) while (pad-- > 0) KP_OUT(' ');
  }
  if (cap) o[n < cap ? n : cap - 1] = 0;
  return n;
}
int kpm_vsnprintf(char *o, size_t cap, const char *f, __builtin_va_list ap) { return (int)kfmt(o, cap, f, ap); }
int kpm_vsprintf(char *o, const char *f, __builtin_va_list ap) { return (int)kfmt(o, (size_t)1 << 30, f, ap); }
int kpm_snprintf(char *o, size_t cap, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); size_t n = kfmt(o, cap, f, ap); __builtin_va_end(ap); return (int)n; }
int kpm_sprintf(char *o, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); size_t n = kfmt(o, (size_t)1 << 30, f, ap); __builtin_va_end(ap); return (int)n; }
int *__errno_location(void) { return &g_errno; }
static int digv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static unsigned long long kstrto(const char *s, char **e, int base, bool sgn) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digv(p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  const char *st = p; unsigned long long v = 0; bool ovf = false;
  for (; digv(*p) < base; p++) { unsigned long long d = digv(*p); if (v > (~0ull - d) / base) ovf = true; v = v * base + d; }
  if (e) *e = (char *)(p == st ? s : p);
  if (sgn) {
    unsigned long long lim = neg ? 1ull << 63 : (1ull << 63) - 1;
    if (ovf || v > lim) { g_errno = ERANGE; return lim; }
  } else if (ovf) { g_errno = ERANGE; return ~0ull; }
  return neg ? -v : v;
}
long strtol(const char *s, char **e, int b) { return (long)kstrto(s, e, b, true); }
long long strtoll(const char *s, char **e, int b) { return (long long)kstrto(s, e, b, true); }
unsigned long strtoul(const char *s, char **e, int b) { return kstrto(s, e, b, false); }
unsigned long long strtoull(const char *s, char **e, int b) { return kstrto(s, e, b, false); }
long kpm_strtol(const char *s, char **e, int b) { return (long)kstrto(s, e, b, true); }
long long kpm_strtoll(const char *s, char **e, int b) { return (long long)kstrto(s, e, b, true); }
unsigned long kpm_strtoul(const char *s, char **e, int b) { return kstrto(s, e, b, false); }
unsigned long long kpm_strtoull(const char *s, char **e, int b) { return kstrto(s, e, b, false); }
int kpm_atoi(const char *s) { return (int)kstrto(s, nullptr, 10, true); }
double strtod(const char *, char **) { kp_unsupported("strtod"); return 0; }

// ------------------------------------------------------------------ OpenSSL: ideal primitives
struct ShaState { unsigned char *p; uint64_t n, magic; };
int SHA256_Init(SHA256_CTX *c) { ShaState s{nullptr, 0, 0x5348413235360001ull}; memcpy(c, &s, sizeof s); return 1; }
int SHA256_Update(SHA256_CTX *c, const void *d, size_t n) {
  ShaState s; memcpy(&s, c, sizeof s);
  if (s.magic != 0x5348413235360001ull) { kp_fail("crypto-misuse", "SHA256_Update on an uninitialised context"); return 0; }
  unsigned char *q = (unsigned char *)malloc(s.n + n + 1);
  if (s.n) memcpy(q, s.p, s.n);
  if (n) memcpy(q + s.n, d, n);
  s.p = q; s.n += n; memcpy(c, &s, sizeof s); return 1;
}
int SHA256_Final(unsigned char *md, SHA256_CTX *c) {
  ShaState s; memcpy(&s, c, sizeof s);
  if (s.magic != 0x5348413235360001ull) { kp_fail("crypto-misuse", "SHA256_Final on an uninitialised context"); return 0; }
  kp_ideal_hash(s.p, s.n, md);
  memset(c, 0, sizeof *c); return 1;
}
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md) { kp_ideal_hash(d, n, md); return md; }
struct AesState { unsigned char key[32]; uint32_t magic; };
static int aesset(const unsigned char *k, int bits, AES_KEY *o, uint32_t m) {
  if (!k || !o) return -1;
  if (bits != 128 && bits != 192 && bits != 256) return -2;
  AesState s; memset(&s, 0, sizeof s); memcpy(s.key, k, bits / 8); s.magic = m | bits;
  memset(o, 0, sizeof *o); memcpy(o, &s, sizeof s); return 0;
}
int AES_set_encrypt_key(const unsigned char *k, int bits, AES_KEY *o) { return aesset(k, bits, o, 0xae500000); }
int AES_set_decrypt_key(const unsigned char *k, int bits, AES_KEY *o) { return aesset(k, bits, o, 0xae510000); }
static void aesop(int dec, const unsigned char *in, unsigned char *out, const AES_KEY *k) {
  AesState s; memcpy(&s, k, sizeof s);
  if ((s.magic & 0xfffe0000u) != 0xae500000u) { kp_fail("crypto-misuse", "AES key schedule not initialised"); return; }
  int kdec = (s.magic >> 16) & 1; unsigned bits = s.magic & 0xffff;
  unsigned char key[32]; memcpy(key, s.key, 32);
  if (kdec != dec || bits != 256) {       // wrong direction or key size: some other, unrelated permutation
    unsigned char t[40]; memcpy(t, s.key, 32); memset(t + 32, 0, 8); t[32] = kdec; t[33] = dec; t[34] = bits & 0xff; t[35] = bits >> 8;
    kp_ideal_hash(t, 40, key);
  }
  kp_ideal_perm(dec, key, in, out);
}
void AES_encrypt(const unsigned char *in, unsigned char *out, const AES_KEY *k) { aesop(0, in, out, k); }
void AES_decrypt(const unsigned char *in, unsigned char *out, const AES_KEY *k) { aesop(1, in, out, k); }

// ------------------------------------------------------------------ zlib
int deflateInit2_(z_streamp z, int, int method, int wbits, int, int, const char *, int) { if (method != Z_DEFLATED) return Z_STREAM_ERROR; z->state = kpz_new(1); z->total_in = z->total_out = 0; if (wbits < 16) ((internal_state *)z->state)->phase = 1; return Z_OK; }
int inflateInit2_(z_streamp z, int wbits, const char *, int) { z->state = kpz_new(0); z->total_in = z->total_out = 0; if (wbits < 16) ((internal_state *)z->state)->phase = 2; return Z_OK; }
int deflate(z_streamp z, int f) { return kpz_deflate(z, f); }
int inflate(z_streamp z, int f) { return kpz_inflate(z, f); }
int deflateEnd(z_streamp z) { return kpz_end(z); }
int inflateEnd(z_streamp z) { return kpz_end(z); }

// ------------------------------------------------------------------ time (local zone: UTC, a fixed offset, or one with a simple DST rule: see kp_tz)
static const short kMon[2][13] = {{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365}, {0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366}};
static int kYear[137]; static unsigned char kLeap[137]; static bool kTimeReady = false;     // 1970..2106
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static void timeInit() {
  if (kTimeReady) return; kTimeReady = true;
  int d = 0; for (int i = 0; i <= 136; i++) { kYear[i] = d; kLeap[i] = leap(1970 + i); d += 365 + kLeap[i]; }
}
static unsigned long long secsOf(unsigned char y, unsigned char mon, unsigned char day, unsigned char h, unsigned char mi, unsigned char s) {
  return (unsigned long long)(kYear[y] + kMon[kLeap[y]][mon] + day - 1) * 86400ull + h * 3600ull + mi * 60ull + s;
}
// time_t <-> calendar fields correspondences already established on this path
struct TimeMemo { long t; int y, mon, day, h, mi, s, yday; };
static TimeMemo g_memo[256]; static int g_nmemo = 0;
static const long kTimeMax = 4291747200l;    // 2106-01-01
static struct tm g_tm;
static void civil(long t, struct tm *r) {     // concrete
  long d = t / 86400, s = t % 86400; if (s < 0) s += 86400, d--;
  r->tm_hour = s / 3600; r->tm_min = s / 60 % 60; r->tm_sec = s % 60; r->tm_wday = (int)(((d + 4) % 7 + 7) % 7);
  long z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097);
  unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long y = (long)yoe + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  r->tm_mday = doy - (153 * mp + 2) / 5 + 1; unsigned m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2;
  r->tm_mon = m - 1; r->tm_year = (int)(y - 1900); r->tm_yday = kMon[leap((int)y)][r->tm_mon] + r->tm_mday - 1; r->tm_isdst = 0;
}
struct tm *gmtime_r(const time_t *tp, struct tm *r) {
  timeInit();
  time_t t = *tp;
  memset(r, 0, sizeof *r);
  if (!kp_is_symbolic(t)) { if (t > 67767976233532799l || t < -67768040609740800l) { g_errno = EOVERFLOW; return nullptr; } civil(t, r); return r; }
  if (t < 0 || t >= kTimeMax) { kp_unsupported("symbolic time outside 1970..2105"); return nullptr; }
  for (int i = 0; i < g_nmemo; i++) if (kp_same(g_memo[i].t, t)) {
    const TimeMemo &m = g_memo[i];
    r->tm_year = m.y; r->tm_mon = m.mon; r->tm_mday = m.day; r->tm_hour = m.h; r->tm_min = m.mi; r->tm_sec = m.s; r->tm_yday = m.yday; return r;
  }
  struct tm h; civil((long)kp_pick(t), &h);
  // the calendar fields are fresh variables tied to t by t == secsOf(fields)
  unsigned char y = kp_fresh_hint(h.tm_year - 70, 8), m1 = kp_fresh_hint(h.tm_mon + 1, 4), day = kp_fresh_hint(h.tm_mday, 5),
                hh = kp_fresh_hint(h.tm_hour, 5), mi = kp_fresh_hint(h.tm_min, 6), ss = kp_fresh_hint(h.tm_sec, 6);
  kp_assume(y <= 135); kp_assume(m1 >= 1 && m1 <= 12); kp_assume(day >= 1); kp_assume(hh <= 23); kp_assume(mi <= 59); kp_assume(ss <= 59);
  unsigned char mon = m1 - 1;
  kp_assume(day <= kMon[kLeap[y]][m1] - kMon[kLeap[y]][mon]);
  kp_assume(secsOf(y, mon, day, hh, mi, ss) == (unsigned long long)t);
  r->tm_year = y + 70; r->tm_mon = (int)m1 - 1; r->tm_mday = day; r->tm_hour = hh; r->tm_min = mi; r->tm_sec = ss;
  r->tm_yday = kMon[kLeap[y]][mon] + day - 1; r->tm_wday = 0; r->tm_isdst = 0;
  if (g_nmemo < 256) g_memo[g_nmemo++] = TimeMemo{t, r->tm_year, r->tm_mon, r->tm_mday, r->tm_hour, r->tm_min, r->tm_sec, r->tm_yday};
  return r;
}
struct tm *gmtime(const time_t *t) { return gmtime_r(t, &g_tm); }
static long g_tzoff = 0; static bool g_tzdst = false;
void kp_tz(int off, int dst) { g_tzoff = off; g_tzdst = dst; }
// daylight saving time (+1 h) from April 1st 00:00 to October 28th 00:00 (POSIX rule J91/0,J301/0)
static unsigned hourKey(const struct tm *r) { return ((unsigned)(unsigned char)r->tm_mon << 10) + ((unsigned)(unsigned char)r->tm_mday << 5) + (unsigned char)r->tm_hour; }
struct tm *localtime_r(const time_t *t, struct tm *r) {
  time_t u = *t + g_tzoff; if (!gmtime_r(&u, r)) return nullptr;
  if (g_tzdst) { unsigned k = hourKey(r); if (kp_concretize(k >= (3u << 10) + (1u << 5) && k < (9u << 10) + (27u << 5) + 23)) { u += 3600; if (!gmtime_r(&u, r)) return nullptr; r->tm_isdst = 1; } }
  return r;
}
struct tm *localtime(const time_t *t) { return localtime_r(t, &g_tm); }
static bool small(int v) { return v >= 0 && v < 256; }
time_t timegm(struct tm *r) {
  timeInit();
  for (int i = 0; i < g_nmemo; i++) {
    const TimeMemo &m = g_memo[i];
    if (kp_same(m.y, r->tm_year) && kp_same(m.mon, r->tm_mon) && kp_same(m.day, r->tm_mday) && kp_same(m.h, r->tm_hour) && kp_same(m.mi, r->tm_min) && kp_same(m.s, r->tm_sec)) {
      r->tm_yday = m.yday; r->tm_wday = 0; r->tm_isdst = 0; return m.t;
    }
  }
  int y = r->tm_year - 70;
  if (y >= 0 && y <= 135 && r->tm_mon >= 0 && r->tm_mon <= 11 && small(r->tm_mday) && small(r->tm_hour) && small(r->tm_min) && small(r->tm_sec) && r->tm_mday >= 1) {
    unsigned char yb = (unsigned char)y, mb = (unsigned char)r->tm_mon, db = (unsigned char)r->tm_mday, hb = (unsigned char)r->tm_hour, ib = (unsigned char)r->tm_min, sb = (unsigned char)r->tm_sec;
    time_t t = (time_t)secsOf(yb, mb, db, hb, ib, sb);
    if (kp_is_symbolic((uint64_t)t) && g_nmemo < 256 && kp_concretize(hb < 24 && ib < 60 && sb < 60 && db <= kMon[kLeap[yb]][mb + 1] - kMon[kLeap[yb]][mb])) {
      int yday = kMon[kLeap[yb]][mb] + db - 1; r->tm_yday = yday; r->tm_wday = 0; r->tm_isdst = 0;
      g_memo[g_nmemo++] = TimeMemo{t, r->tm_year, r->tm_mon, r->tm_mday, r->tm_hour, r->tm_min, r->tm_sec, yday};
    }
    return t;
  }
  // general case: years beyond the table, out-of-range fields
  int mon = r->tm_mon; long yy = r->tm_year + 1900l;
  if (mon < 0 || mon > 11) { yy += mon / 12; mon %= 12; if (mon < 0) mon += 12, yy--; }
  if (yy < 0 || yy > 100000) { kp_unsupported("timegm: year out of the modelled range"); return -1; }
  uint32_t py = (uint32_t)yy;
  uint32_t p = py ? py - 1 : 0;
  long days = 365l * p + p / 4 - p / 100 + p / 400 - (py ? 0 : 366) - 719162l;
  uint32_t lp = (py & 3) == 0 && (py % 100 != 0 || py % 400 == 0);
  days += kMon[lp][mon] + (long)r->tm_mday - 1;
  return days * 86400l + r->tm_hour * 3600l + r->tm_min * 60l + r->tm_sec;
}
time_t mktime(struct tm *r) {
  int dst = r->tm_isdst; time_t t = timegm(r); if (t == (time_t)-1) return t; kp_use(&dst, sizeof dst);
  if (dst < 0 && g_tzdst) { unsigned k = hourKey(r); dst = (int)kp_concretize(k >= (3u << 10) + (1u << 5) + 1 && k < (9u << 10) + (28u << 5)); }
  if (g_tzdst && dst > 0) { t -= 3600; r->tm_isdst = 1; }
  return t - g_tzoff;
}
void tzset(void) {}
time_t time(time_t *p) { static time_t t = 1700000000; t++; if (p) *p = t; return t; }
static char *put2(char *o, unsigned v) { *o++ = '0' + (unsigned char)v / 10; *o++ = '0' + (unsigned char)v % 10; return o; }
size_t strftime(char *s, size_t max, const char *f, const struct tm *t) {
  char tmp[128]; char *o = tmp;
  for (; *f; f++) {
    if (o - tmp > 100) { kp_unsupported("strftime output"); return 0; }
    if (*f != '%') { *o++ = *f; continue; }
    f++;
    if (*f == 'Y') {
      int y = t->tm_year + 1900;
      if (t->tm_year >= 70 && t->tm_year <= 205) { unsigned char b = (unsigned char)(t->tm_year - 70); o = put2(o, (unsigned)(b < 30 ? 19 : b < 130 ? 20 : 21)); o = put2(o, (unsigned char)(b < 30 ? b + 70 : b < 130 ? b - 30 : b - 130)); }
      else { y = (int)kp_concretize(y); if (y < 0) { *o++ = '-'; y = -y; } char d[12]; int n = 0; do d[n++] = '0' + y % 10, y /= 10; while (y); while (n) *o++ = d[--n]; }
    } else if (*f == 'm') o = put2(o, t->tm_mon + 1);
    else if (*f == 'd') o = put2(o, t->tm_mday);
    else if (*f == 'H') o = put2(o, t->tm_hour);
    else if (*f == 'M') o = put2(o, t->tm_min);
    else if (*f == 'S') o = put2(o, t->tm_sec);
    else if (*f == '%') *o++ = '%';
    else if (*f == 'F' || *f == 'T') {
      char sub[32]; struct tm c = *t; size_t n = strftime(sub, sizeof sub, *f == 'F' ? "%Y-%m-%d" : "%H:%M:%S", &c); memcpy(o, sub, n); o += n;
    } else { kp_unsupported("strftime conversion"); return 0; }
  }
  size_t n = o - tmp; if (n + 1 > max) return 0;
  memcpy(s, tmp, n); s[n] = 0; return n;
}
static const char *getnum(const char *p, int from, int to, int n, int *out) {
  while (*p == ' ') p++;
  if (*p < '0' || *p > '9') return nullptr;
  int v = 0;
  do { v = v * 10 + (*p++ - '0'); } while (--n > 0 && *p >= '0' && *p <= '9' && v * 10 <= to);
  if (kp_concretize(v < from || v > to)) return nullptr;      // decided here (no if-conversion)
  *out = v; return p;
}
char *strptime(const char *p, const char *f, struct tm *t) {
  bool date = false;
  while (*f) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*p)) p++; f++; continue; }
    if (*f != '%') { if (*p++ != *f++) return nullptr; continue; }
    f++; int v;
    switch (*f++) {
      case 'Y': if (!(p = getnum(p, 0, 9999, 4, &v))) return nullptr; t->tm_year = v - 1900; date = true; break;
      case 'm': if (!(p = getnum(p, 1, 12, 2, &v))) return nullptr; t->tm_mon = v - 1; date = true; break;
      case 'd': if (!(p = getnum(p, 1, 31, 2, &v))) return nullptr; t->tm_mday = v; date = true; break;
      case 'H': if (!(p = getnum(p, 0, 23, 2, &v))) return nullptr; t->tm_hour = v; break;
      case 'M': if (!(p = getnum(p, 0, 59, 2, &v))) return nullptr; t->tm_min = v; break;
      case 'S': if (!(p = getnum(p, 0, 61, 2, &v))) return nullptr; t->tm_sec = v; break;
      case '%': if (*p++ != '%') return nullptr; break;
      case 'Z': case 'z': if (*p == 'Z') { p++; break; } return nullptr;
      default: kp_unsupported("strptime conversion"); return nullptr;
    }
  }
  if (date) { t->tm_wday = 0; t->tm_yday = 0; }
  return (char *)p;
}
}
