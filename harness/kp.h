// Harness-side API.  The same harness source is compiled (a) to LLVM bitcode and executed symbolically by
// kpx together with the repository's code and models/, and (b) natively against the real libraries, where
// the symbolic inputs are taken from a file, to replay counterexamples and validate sampled paths.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
void kp_symbolic(void *p, size_t n, const char *name);
uint64_t kp_choose(uint64_t n, const char *name);
void kp_assume(int c);
void kp_assert_(int c, const char *label);
void kp_reach(const char *tag);
void kp_use(const void *p, size_t n);               // the caller depends on these bytes: they must be initialised
void kp_observe(const char *tag, const void *p, size_t n);
uint64_t kp_param(unsigned i);
uint64_t kp_is_symbolic(uint64_t v);
uint64_t kp_any_symbolic(const void *p, size_t n);
uint64_t kp_fresh_hint(uint64_t hint, unsigned bits);
uint64_t kp_concretize(uint64_t v);
uint64_t kp_pick(uint64_t v);
int kp_same(uint64_t a, uint64_t b);              // engine only: the two terms are structurally identical
void kp_ideal_hash(const void *p, size_t n, void *out32);
void kp_ideal_perm(int dec, const void *key32, const void *in16, void *out16);
void kp_crypto_mode(int m);
void kp_step_budget(uint64_t n, const char *label);
void kp_alloc_budget(uint64_t n);
void kp_fail(const char *kind, const char *label);
void kp_unsupported(const char *msg);
void kp_debug(const char *s, uint64_t v);
void kp_end_path(void);
int kp_uncaught(void);
int kp_native(void);
void kp_main(void);
// file system (models/rt.cc in the engine, harness/native.cc natively)
void kp_fs_put(const char *name, const void *p, size_t n);
size_t kp_fs_size(const char *name);                 // (size_t)-1: no such file
void kp_fs_get(const char *name, void *p, size_t n);
void kp_fs_fault(uint64_t bytes, int kind);          // file writes fail after this many bytes (~0: never): 0 from then on, 1 once; 2: closing a written file fails once
void kp_tz(int offset, int dst);                     // local time zone: seconds east of UTC (whole hours), daylight saving from April 1st 00:00 to October 28th 00:00
void kp_zlib_mode(int m);                            // 0: one-shot zlib; 1: zlib may split its work at will
}
#define KP_STR2(x) #x
#define KP_STR(x) KP_STR2(x)
#define kp_check(c, label) kp_assert_((c) ? 1 : 0, label)
namespace kp {
inline std::string path(const char *name);           // path under which the file kp_fs_* calls `name` is visible
inline uint8_t u8(const char *n) { uint8_t v; kp_symbolic(&v, 1, n); return v; }
inline uint16_t u16(const char *n) { uint16_t v; kp_symbolic(&v, 2, n); return v; }
inline uint32_t u32(const char *n) { uint32_t v; kp_symbolic(&v, 4, n); return v; }
inline uint64_t u64(const char *n) { uint64_t v; kp_symbolic(&v, 8, n); return v; }
inline bool flag(const char *n) { uint8_t v; kp_symbolic(&v, 1, n); kp_assume(v <= 1); return v != 0; }
template <size_t N> struct Arr;
inline std::string bytes(size_t n, const char *name) {
  std::string s; s.resize(n); if (n) kp_symbolic(&s[0], n, name); return s;
}
inline std::vector<uint8_t> vec(size_t n, const char *name) {
  std::vector<uint8_t> s(n); if (n) kp_symbolic(s.data(), n, name); return s;
}
// symbolic string of exactly n characters without NUL
inline std::string text(size_t n, const char *name) {
  std::string s = bytes(n, name); for (size_t i = 0; i < n; i++) kp_assume(s[i] != 0); return s;
}
inline void put(const char *name, const std::string &d) { kp_fs_put(name, d.data(), d.size()); }
inline std::string get(const char *name) {
  size_t n = kp_fs_size(name); std::string s; if (n == (size_t)-1 || !n) return s; s.resize(n); kp_fs_get(name, &s[0], n); return s;
}
inline void observe(const char *tag, const std::string &s) { kp_observe(tag, s.data(), s.size()); }
inline void observe(const char *tag, uint64_t v) { kp_observe(tag, &v, 8); }
}
extern "C" const char *kp_fs_dir(void);
inline std::string kp::path(const char *name) { return std::string(kp_fs_dir()) + name; }
