// Native implementation of the harness API: the same harness, compiled with the real compiler, libstdc++, zlib and
// OpenSSL, driven by concrete inputs from a file.  usage: prog INPUTS SCRATCHDIR [param...]
// Exit: 0 ran to the end, 42 an assertion of the harness failed, 77 an assumption is not met by the inputs;
// anything else (abort, sanitizer report, uncaught exception) is a crash of the code under test.
#include "kp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <exception>
#include <map>
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <unistd.h>
static std::map<std::string, std::string> g_in;
static std::map<std::string, int> g_cnt;
static std::vector<uint64_t> g_par;
static std::string g_dir;
static const std::string *next(const char *name) {
  std::string k = std::string(name) + "#" + std::to_string(g_cnt[name]++);
  auto it = g_in.find(k);
  return it == g_in.end() ? nullptr : &it->second;
}
static void done(int rc) { fflush(nullptr); _exit(rc); }
extern "C" {
void kp_symbolic(void *p, size_t n, const char *name) {
  memset(p, 0, n);
  if (const std::string *v = next(name)) memcpy(p, v->data(), v->size() < n ? v->size() : n);
}
uint64_t kp_choose(uint64_t n, const char *name) {
  uint64_t v = 0;
  if (const std::string *s = next(name)) memcpy(&v, s->data(), s->size() < 8 ? s->size() : 8);
  return n ? v % n : v;
}
void kp_assume(int c) { if (!c) { printf("KP-ASSUME\n"); done(77); } }
void kp_assert_(int c, const char *label) { if (!c) { printf("KP-VIOLATION assert %s\n", label); done(42); } }
void kp_fail(const char *kind, const char *label) { printf("KP-VIOLATION %s %s\n", kind, label); done(42); }
void kp_reach(const char *tag) { printf("KP-REACH %s\n", tag); fflush(stdout); }
void kp_observe(const char *tag, const void *p, size_t n) {
  printf("KP-OBS %s ", tag);
  for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *)p)[i]);
  printf("\n");
}
static volatile int g_sink;
void kp_use(const void *p, size_t n) { for (size_t i = 0; i < n; i++) if (((const volatile unsigned char *)p)[i] == 0x5a) g_sink++; }
uint64_t kp_param(unsigned i) { return i < g_par.size() ? g_par[i] : 0; }
uint64_t kp_is_symbolic(uint64_t) { return 0; }
uint64_t kp_any_symbolic(const void *, size_t) { return 0; }
uint64_t kp_concretize(uint64_t v) { return v; }
uint64_t kp_pick(uint64_t v) { return v; }
int kp_same(uint64_t a, uint64_t b) { return a == b; }
void kp_crypto_mode(int) {}
void kp_step_budget(uint64_t, const char *) {}
void kp_alloc_budget(uint64_t) {}
void kp_unsupported(const char *m) { printf("KP-UNSUPPORTED %s\n", m); done(78); }
void kp_debug(const char *, uint64_t) {}
void kp_end_path(void) { printf("KP-END\n"); done(0); }
int kp_native(void) { return 1; }
void kp_tz(int off, int dst) { char b[80]; int h = -off / 3600; if (!off && !dst) strcpy(b, "UTC"); else if (dst) snprintf(b, sizeof b, "XST%dXDT,J91/0,J301/0", h); else snprintf(b, sizeof b, "XST%d", h); setenv("TZ", b, 1); tzset(); }
#ifndef KP_ZMODEL
void kp_zlib_mode(int) {}
#endif
const char *kp_fs_dir(void) { return g_dir.c_str(); }
void kp_fs_put(const char *n, const void *p, size_t sz) {
  FILE *f = fopen(kp::path(n).c_str(), "wb"); if (!f) done(79);
  if (sz) fwrite(p, 1, sz, f); fclose(f);
}
size_t kp_fs_size(const char *n) { struct stat st; return stat(kp::path(n).c_str(), &st) ? (size_t)-1 : (size_t)st.st_size; }
void kp_fs_get(const char *n, void *p, size_t sz) { FILE *f = fopen(kp::path(n).c_str(), "rb"); if (f) { if (sz && fread(p, 1, sz, f) != sz) done(79); fclose(f); } }
static uint64_t g_limit = ~0ull; static int g_fault; static bool g_armed;
void kp_fs_fault(uint64_t b, int kind) { g_limit = b; g_fault = kind; g_armed = b != ~0ull || kind == 2; }
static ssize_t budget(size_t n) {                       // bytes that may be written now, -1: fail
  if (g_limit == ~0ull) return (ssize_t)n;
  if (n > g_limit) {
    if (g_fault == 1) { g_limit = ~0ull; errno = ENOSPC; return -1; }
    if (!g_limit) { errno = ENOSPC; return -1; }
    n = g_limit;
  }
  g_limit -= n; return (ssize_t)n;
}
ssize_t write(int fd, const void *p, size_t n) {
  if (g_armed && fd > 2) { ssize_t w = budget(n); if (w < 0) return -1; n = (size_t)w; }
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!(g_armed && fd > 2)) return syscall(SYS_writev, fd, v, c);
  std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
  return write(fd, s.data(), s.size());
}
static bool g_writing(FILE *f) { return (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY; }
int fclose(FILE *f) {
  static int (*real)(FILE *); if (!real) real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
  bool fail = g_armed && g_fault == 2 && g_writing(f); int r = real(f);
  if (fail) { g_fault = 0; errno = EIO; return EOF; }
  return r;
}
}
#ifdef KP_ZMODEL
#include "../models/zmodel.h"
extern "C" {
int deflateInit2_(z_streamp z, int, int method, int wbits, int, int, const char *, int) { if (method != Z_DEFLATED) return Z_STREAM_ERROR; z->state = kpz_new(1); z->total_in = z->total_out = 0; if (wbits < 16) ((internal_state *)z->state)->phase = 1; return Z_OK; }
int inflateInit2_(z_streamp z, int wbits, const char *, int) { z->state = kpz_new(0); z->total_in = z->total_out = 0; if (wbits < 16) ((internal_state *)z->state)->phase = 2; return Z_OK; }
int deflate(z_streamp z, int f) { return kpz_deflate(z, f); }
int inflate(z_streamp z, int f) { return kpz_inflate(z, f); }
int deflateEnd(z_streamp z) { return kpz_end(z); }
int inflateEnd(z_streamp z) { return kpz_end(z); }
}
#endif
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  FILE *f = fopen(argv[1], "r"); if (!f) return 2;
  char *line = nullptr; size_t cap = 0; ssize_t l;
  while ((l = getline(&line, &cap, f)) > 0) {
    while (l && (line[l - 1] == '\n' || line[l - 1] == '\r')) line[--l] = 0;
    char *sp = strchr(line, ' '); if (!sp || line[0] == '/') continue;
    *sp = 0; std::string v;
    for (char *p = sp + 1; p[0] && p[1]; p += 2) { unsigned x; if (sscanf(p, "%2x", &x) != 1) break; v += (char)x; }
    g_in[line] = v;
  }
  free(line); fclose(f);
  g_dir = std::string(argv[2]) + "/";
  for (int i = 3; i < argc; i++) g_par.push_back(strtoull(argv[i], nullptr, 0));
  try { kp_main(); }
  catch (const std::exception &e) { printf("KP-UNCAUGHT %s\n", e.what()); done(43); }
  catch (...) { printf("KP-UNCAUGHT\n"); done(43); }
  printf("KP-END\n");
  fflush(nullptr);
  return 0;
}
