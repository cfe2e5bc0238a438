// Builders of databases with symbolic content and field-by-field comparison (never through the library's own operator==).
#pragma once
#include "spec.h"
#include "database.hh"
#include "entry.hh"
#include "exception.hh"
#include "group.hh"
#include "icon.hh"
#include "key.hh"
#include "metadata.hh"
#include <memory>
#include <string>
#include <vector>
namespace gen {
using namespace keepass;
typedef std::string Str;
inline std::array<uint8_t, 16> a16(const char *n) { std::array<uint8_t, 16> a; kp_symbolic(a.data(), 16, n); return a; }
inline std::array<uint8_t, 32> a32(const char *n) { std::array<uint8_t, 32> a; kp_symbolic(a.data(), 32, n); return a; }
// every second of 1970-01-01 00:00:01 .. 2105-12-31 23:59:59; the value 0 is the library's "never"
inline std::time_t time(const char *n) { uint32_t v = kp::u32(n); kp_assume(v >= 1 && v < 4291747200u); return (std::time_t)v; }
inline protect<Str> plain(const Str &s) { return protect<Str>(s, false); }
// n symbolic characters; long texts are mostly fixed characters with symbolic ones at both ends and around powers of two
inline Str text(size_t n, const char *name) {
  if (n <= 40) return kp::text(n, name);
  Str s(n, 'x'); for (size_t i = 0; i < n; i++) s[i] = (char)('A' + (i * 7 + i / 61) % 53);
  Str t = kp::text(4, name); s[0] = t[0]; s[n / 2] = t[1]; s[n - 2] = t[2]; s[n - 1] = t[3];
  return s;
}
inline Str data(size_t n, const char *name) {
  if (n <= 40) return kp::bytes(n, name);
  Str s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 31 + i / 251);
  Str t = kp::bytes(4, name); s[0] = t[0]; s[n / 2] = t[1]; s[n - 2] = t[2]; s[n - 1] = t[3];
  return s;
}
inline void same(const Str &a, const Str &b, const char *label) {
  kp_check(a.size() == b.size(), label);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) kp_check(a[i] == b[i], label);
}
template <size_t N> void same(const std::array<uint8_t, N> &a, const std::array<uint8_t, N> &b, const char *label) { for (size_t i = 0; i < N; i++) kp_check(a[i] == b[i], label); }
inline void same(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b, const char *label) {
  kp_check(a.size() == b.size(), label);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) kp_check(a[i] == b[i], label);
}
// ---- keys.  kind: bit 0 password present, bit 1 key file present, bit 2 key file set first
struct KeySpec { Str pass; bool has_pass = false, has_file = false; Str file; };
inline Str hexed(const Str &b) { static const char h[] = "0123456789abcdef"; Str r; for (unsigned char c : b) { r += h[c >> 4]; r += h[c & 15]; } return r; }
inline KeySpec keyspec(uint64_t kind, size_t plen, bool symfile = false) {
  KeySpec k; k.has_pass = kind & 1; k.has_file = kind & 2;
  if (k.has_pass) k.pass = kp::bytes(plen, "pass");
  if (k.has_file) {
    if (symfile) { k.file = kp::bytes(32, "keyfile"); }
    else for (int i = 0; i < 32; i++) k.file += (char)(7 * i + 129);
  }
  return k;
}
inline Key mkkey(const KeySpec &k, uint64_t kind) {
  Key key;
  if (k.has_file) kp::put("key.bin", "<?xml version=\"1.0\"?>\n<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>" + spec::b64enc(k.file) + "</Data></Key></KeyFile>");
  if ((kind & 4) && k.has_file) key.SetKeyFile(kp::path("key.bin"));
  if (k.has_pass) key.SetPassword(k.pass);
  if (!(kind & 4) && k.has_file) key.SetKeyFile(kp::path("key.bin"));
  return key;
}
}
