// C16: fixed-size and bounded reads and writes, array streams.
//  0 type L     consume<T> from L arbitrary bytes (with one byte consumed before when L is odd)
//  1 type room  conserve<T> into an array of `room` bytes
//  2 kind L     consume<string/vectors> from L arbitrary bytes
//  3 kind L room  conserve<string/vectors> into an array of `room` bytes and back
//  4 kind N M   bounded output of M values into a container of N, by std::copy / by single steps
//  5 k          k arbitrary operations on an array stream against a reference
#include "kp.h"
#include "io.hh"
#include "iterator.hh"
#include "stream.hh"
#include "exception.hh"
#include <array>
#include <sstream>
#include <stdexcept>
#include <iterator>
#include <algorithm>
using namespace keepass;
typedef std::string Str;
static uint64_t P(int i) { return kp_param(i); }
static void same(const char *a, const char *b, size_t n, const char *what) { for (size_t i = 0; i < n; i++) kp_check(a[i] == b[i], what); }
template <class T> static void take() {
  Str d = kp::bytes(P(2), "data"); std::stringstream ss(d); size_t off = 0;
  if (P(2) & 1) { ss.get(); off = 1; }
  try {
    T v = consume<T>(ss);
    kp_check(d.size() - off >= sizeof(T), "value returned from too little data"); kp_use(&v, sizeof v);
    same((const char *)&v, d.data() + off, sizeof(T), "value differs from the data read"); kp_check((size_t)ss.tellg() == off + sizeof(T), "wrong number of bytes consumed"); kp_reach("read");
    if (d.size() > off + sizeof(T)) kp_check((char)ss.get() == d[off + sizeof(T)], "position after the value");
  } catch (const IoError &) { kp_check(d.size() - off < sizeof(T), "sufficient data refused"); kp_reach("refused"); }
}
template <size_t N> struct Room {      // an array with guard bytes around it
  char before[16]; std::array<uint8_t, N> a; char after[16];
  Room() { for (auto &c : before) c = 0x55; for (auto &c : after) c = 0x66; for (auto &c : a) c = 0x77; }
  void guards() { for (char c : before) kp_check(c == 0x55, "wrote before the array"); for (char c : after) kp_check(c == 0x66, "wrote behind the array"); }
};
template <class T, size_t N> static void give() {
  T v; kp_symbolic(&v, sizeof v, "value"); Room<N> r; array_iostreambuf<N> b(r.a); std::ostream o(&b); size_t off = 0;
  if (N > 2) { o.put('x'); off = 1; }
  try { conserve(o, v); kp_check(N - off >= sizeof(T), "write into too small an array succeeded"); same((const char *)&v, (const char *)r.a.data() + off, sizeof(T), "written value differs");
    for (size_t i = off + sizeof(T); i < N; i++) kp_check(r.a[i] == 0x77, "wrote more than the value"); kp_reach("written");
  } catch (const IoError &) { kp_check(N - off < sizeof(T), "write with enough room refused"); kp_reach("refused"); }
  r.guards();
}
template <class T> static void give1() { switch (P(2)) { case 0: give<T, 1>(); break; case 1: give<T, sizeof(T)>(); break; case 2: give<T, sizeof(T) + 1>(); break; default: give<T, sizeof(T) + 5>(); } }
struct Rec { uint16_t a; uint32_t b; std::array<uint8_t, 3> c; } __attribute__((packed));
template <class F> static void types(F f) {
  switch (P(1)) { case 0: f((uint8_t *)0); break; case 1: f((uint16_t *)0); break; case 2: f((uint32_t *)0); break; case 3: f((uint64_t *)0); break; case 4: f((std::array<uint8_t, 16> *)0); break; case 5: f((std::array<uint8_t, 32> *)0); break;
    case 6: f((Rec *)0); break; default: f((int32_t *)0); }
}
template <class C> static Str str(const C &c) { return Str(c.begin(), c.end()); }
static void whole() {
  Str d = kp::bytes(P(2), "data"); std::stringstream ss(d);
  if (P(1) == 0) {
    try { Str s = consume<Str>(ss); kp_check(!d.empty(), "string from no data"); size_t k = 0; while (k < d.size() && d[k]) k++; kp_check(s.size() == k, "string does not end at its terminator"); same(s.data(), d.data(), k, "string differs from the data"); kp_reach("read"); }
    catch (const IoError &) { kp_check(d.empty(), "data refused"); kp_reach("refused"); }
  } else {
    Str s = P(1) == 1 ? str(consume<std::vector<char>>(ss)) : str(consume<std::vector<uint8_t>>(ss));
    kp_check(s.size() == d.size(), "wrong size"); same(s.data(), d.data(), d.size(), "vector differs from the data"); kp_reach("read");
  }
}
template <size_t N> static void put_back() {
  Str d = kp::bytes(P(2), "data"); Room<N> r; array_iostreambuf<N> b(r.a); std::iostream o(&b); size_t need = d.size() + (P(1) == 0);
  try {
    if (P(1) == 0) conserve(o, d); else if (P(1) == 1) conserve(o, std::vector<char>(d.begin(), d.end())); else conserve(o, std::vector<uint8_t>(d.begin(), d.end()));
    kp_check(need <= N, "write into too small an array succeeded"); same(d.data(), (const char *)r.a.data(), d.size(), "written data differ"); if (P(1) == 0) kp_check(r.a[d.size()] == 0, "terminator missing");
    for (size_t i = need; i < N; i++) kp_check(r.a[i] == 0x77, "wrote more than the data");
    kp_reach("written");
    if (P(1) == 0) { Str s = consume<Str>(o); size_t k = 0; while (k < d.size() && d[k]) k++; kp_check(s.size() == k, "string read back differs"); same(s.data(), d.data(), k, "string read back differs"); }
  } catch (const IoError &) { kp_check(need > N, "write with enough room refused"); kp_reach("refused"); }
  r.guards();
}
template <size_t N> static void bounded() {
  size_t m = P(3); std::vector<uint8_t> d = kp::vec(m, "data"); Room<N> r; std::vector<uint8_t> v(N, 0x77); size_t w = 0; bool threw = false;
  try {
    if (P(1) == 0) { std::copy(d.begin(), d.end(), bounds_checked(r.a)); w = m; }
    else if (P(1) == 1) { std::copy(d.begin(), d.end(), bounds_checked(v)); w = m; for (size_t i = 0; i < N && i < m; i++) r.a[i] = v[i]; }
    else if (P(1) == 2) { auto it = bounds_checked(r.a); for (; w < m; w++) *it++ = d[w]; }
    else if (P(1) == 3) { auto it = bounds_checked(r.a); for (; w < m; w++, ++it) *it = d[w]; }
    else if (P(1) == 4) { auto it = bounds_checked(r.a); const auto &cd = d; for (; w < m; w++, ++it) it = cd[w]; }
    else {      // arbitrary sequence of steps against a counter
      auto it = bounds_checked(r.a); size_t pos = 0; std::array<uint8_t, N ? N : 1> ref; ref.fill(0x77);
      for (size_t i = 0; i < m; i++) { bool out = pos >= N, t = false; uint64_t op = kp_choose(4, "op");
        try { switch (op) { case 0: *it = d[i]; break; case 1: ++it; break; case 2: it++; break; default: *it++ = d[i]; } } catch (const std::out_of_range &) { t = true; }
        kp_check(t == out, out ? "step outside the container not refused" : "step inside the container refused");
        if (!out) { if (op == 0 || op == 3) ref[pos] = d[i]; if (op) pos++; } }
      for (size_t i = 0; i < N; i++) kp_check(r.a[i] == ref[i], "wrong element written"); r.guards(); kp_reach("done"); return;
    }
  } catch (const std::out_of_range &) { threw = true; }
  bool must = m > N, may = must || ((P(1) == 3 || P(1) == 4) && m > N);
  kp_check(!must || threw, "write outside the container not refused"); kp_check(may || !threw, "write inside the container refused");
  for (size_t i = 0; i < N && i < m; i++) if (P(1) != 1 || !threw) kp_check(r.a[i] == d[i], "bounded write differs"); 
  if (P(1) == 1 && threw) for (size_t i = 0; i < N; i++) kp_check(v[i] == d[i], "bounded write differs");
  for (size_t i = m; i < N; i++) kp_check(r.a[i] == 0x77, "wrote more than the data");
  r.guards(); kp_reach(threw ? "refused" : "written");
}
static void arraystream() {
  const size_t N = 6; Room<N> r; kp_symbolic(r.a.data(), N, "array"); std::array<uint8_t, N> ref = r.a; size_t g = 0, p = 0; array_iostreambuf<N> b(r.a);
  typedef std::ios_base I; auto size = []() -> size_t { return P(3) ? 3 * kp_choose(3, "size") + 1 : kp_choose(9, "size"); };
  for (size_t k = 0; k < P(1); k++) {
    switch (kp_choose(P(2) ? P(2) : 7, "op")) {
      case 0: case 1: {
        int64_t off; kp_symbolic(&off, 8, "offset"); unsigned way = kp_choose(3, "way"), which = kp_choose(4, "which"); 
        I::openmode m = (which & 1 ? I::in : (I::openmode)0) | (which & 2 ? I::out : (I::openmode)0);
        std::streamoff q = b.pubseekoff(off, way == 0 ? I::beg : way == 1 ? I::cur : I::end, m);
        int64_t base = way == 0 ? 0 : way == 2 ? N : which == 1 ? g : p, t = (int64_t)((uint64_t)off + (uint64_t)base);
        bool ok = which && !(way == 1 && which == 3) && off >= -base && off <= (int64_t)N - base;
        kp_check(ok ? q == (int64_t)t : q == -1, "seek result"); if (ok) { size_t c = kp_concretize((uint64_t)t); if (which & 1) g = c; if (which & 2) p = c; } break; }
      case 2: { int64_t off; kp_symbolic(&off, 8, "position"); unsigned which = kp_choose(4, "which"); I::openmode m = (which & 1 ? I::in : (I::openmode)0) | (which & 2 ? I::out : (I::openmode)0);
        std::streamoff q = b.pubseekpos(std::streampos(off), m); bool ok = which && off >= 0 && off <= (int64_t)N; kp_check(ok ? q == off : q == -1, "seek result"); if (ok) { size_t c = kp_concretize((uint64_t)off); if (which & 1) g = c; if (which & 2) p = c; } break; }
      case 3: { int c = b.sbumpc(); kp_check(g < N ? c == ref[g] : c == EOF, "byte at another position read"); if (g < N) g++; break; }
      case 4: { uint8_t v = kp::u8("value"); int c = b.sputc((char)v); if (p < N) { kp_check(c == v, "write inside the array refused"); ref[p++] = v; } else kp_check(c == EOF, "write outside the array accepted"); break; }
      case 5: { size_t n = size(); char t[9]; std::streamsize q = b.sgetn(t, n); size_t w = std::min(n, N - g); kp_check((size_t)q == w, "number of bytes read"); for (size_t i = 0; i < w; i++) kp_check((uint8_t)t[i] == ref[g + i], "byte at another position read"); g += w; break; }
      default: { size_t n = size(); Str t = kp::bytes(n, "value"); std::streamsize q = b.sputn(t.data(), n); size_t w = std::min(n, N - p); kp_check((size_t)q == w, "number of bytes written"); for (size_t i = 0; i < w; i++) ref[p + i] = t[i]; p += w; }
    }
  }
  for (size_t i = 0; i < N; i++) kp_check(r.a[i] == ref[i], "array contents"); r.guards(); kp_reach("done");
}
extern "C" void kp_main() {
  switch (P(0)) {
    case 0: types([](auto *t) { take<typename std::remove_pointer<decltype(t)>::type>(); }); break;
    case 1: types([](auto *t) { give1<typename std::remove_pointer<decltype(t)>::type>(); }); break;
    case 2: whole(); break;
    case 3: switch (P(3)) { case 0: put_back<1>(); break; case 1: put_back<4>(); break; case 2: put_back<5>(); break; default: put_back<9>(); } break;
    case 4: switch (P(2)) { case 0: bounded<1>(); break; case 1: bounded<4>(); break; default: bounded<32>(); } break;
    default: arraystream();
  }
}
