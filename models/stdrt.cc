// (see DESIGN.md, "Models")
#define _GLIBCXX_DEFINING_STRING_INSTANTIATIONS 1
// Out-of-line parts of libstdc++ for the symbolic build.  Template members are instantiated from the installed
// headers (the code that runs natively); only the non-template runtime is modelled here.
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <istream>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <ostream>
#include <random>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <unordered_map>
#include <functional>
#include <typeinfo>
#include "../harness/kp.h"

namespace std {
template class basic_string<char>;
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template ostream &operator<<(ostream &, char);
template ostream &operator<<(ostream &, signed char);
template ostream &operator<<(ostream &, unsigned char);
template ostream &operator<<(ostream &, const char *);
template ostream &endl(ostream &);
template ostream &ends(ostream &);
template ostream &flush(ostream &);
template ostream &operator<<(ostream &, const string &);
template istream &operator>>(istream &, string &);
template istream &ws(istream &);
template istream &getline(istream &, string &, char);
template istream &getline(istream &, string &);
template ostream &__ostream_insert(ostream &, const char *, streamsize);
template streamsize __copy_streambufs(basic_streambuf<char> *, basic_streambuf<char> *);
template streamsize __copy_streambufs_eof(basic_streambuf<char> *, basic_streambuf<char> *, bool &);
template string operator+(const string &, const string &);
template string operator+(const string &, const char *);
template string operator+(const char *, const string &);
template string operator+(string &&, const char *);

// ---- ios_base ----
ios_base::ios_base() throw()
    : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(),
      _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
void ctype<char>::_M_widen_init() const {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_swap(ios_base &) throw() { kp_unsupported("ios_base::_M_swap"); }
void ios_base::_M_move(ios_base &) throw() { kp_unsupported("ios_base::_M_move"); }
locale ios_base::imbue(const locale &) throw() { return locale(); }
ios_base::_Words &ios_base::_M_grow_words(int, bool) { kp_unsupported("ios words"); return _M_word_zero; }

// ---- locale ----
static char kp_ctype_store[sizeof(ctype<char>)] __attribute__((aligned(16)));
static ctype_base::mask kp_ctype_table[256];
static char kp_ct_ready = 0;
static const ctype<char> *kp_ctype() {
  ctype<char> *c = reinterpret_cast<ctype<char> *>(kp_ctype_store);
  if (!kp_ct_ready) {
    kp_ct_ready = 1;
    for (int i = 0; i < 256; i++) {
      int m = 0;
      if (i == ' ' || (i >= 9 && i <= 13)) m |= ctype_base::space;
      if (i >= '0' && i <= '9') m |= ctype_base::digit | ctype_base::xdigit | ctype_base::print | ctype_base::graph;
      if ((i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F')) m |= ctype_base::xdigit;
      if (i >= 'a' && i <= 'z') m |= ctype_base::lower | ctype_base::alpha;
      if (i >= 'A' && i <= 'Z') m |= ctype_base::upper | ctype_base::alpha;
      if (i >= 32 && i < 127) m |= ctype_base::print;
      if (i > 32 && i < 127) m |= ctype_base::graph;
      if (i < 32 || i == 127) m |= ctype_base::cntrl;
      if (i > 32 && i < 127 && !(m & (ctype_base::alpha | ctype_base::digit))) m |= ctype_base::punct;
      if (i == ' ' || i == '\t') m |= ctype_base::blank;
      kp_ctype_table[i] = m;
      c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i;
    }
    c->_M_table = kp_ctype_table; c->_M_widen_ok = 1; c->_M_narrow_ok = 1;
  }
  return c;
}
static char kp_impl_store[sizeof(locale::_Impl)] __attribute__((aligned(16)));
static const locale::facet *kp_facets[64];
static locale::_Impl *kp_impl() {
  locale::_Impl *i = reinterpret_cast<locale::_Impl *>(kp_impl_store);
  if (!i->_M_facets) {
    const locale::facet *f = reinterpret_cast<const locale::facet *>(kp_ctype());
    for (int k = 0; k < 64; k++) kp_facets[k] = f;
    i->_M_facets = kp_facets; i->_M_facets_size = 64;
  }
  return i;
}
locale::locale() throw() : _M_impl(kp_impl()) {}
locale::locale(const locale &) throw() : _M_impl(kp_impl()) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &) throw() { return *this; }
const locale &locale::classic() { static locale::_Impl *p; p = kp_impl(); return *reinterpret_cast<locale *>(&p); }
size_t locale::id::_M_id() const throw() { return 0; }
locale::id ctype<char>::id;
}  // namespace std
extern "C" {
void kpm__ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale(std::basic_ios<char> *t, const std::locale &) {
  t->_M_ctype = std::kp_ctype(); t->_M_num_put = nullptr; t->_M_num_get = nullptr;
}
}
namespace std {
// ---- number formatting on streams; a symbolic number forks on its length, its digits stay symbolic ----
static ostream &kp_num(ostream &o, unsigned long v, bool neg) {
  if (neg) v = -v;
  char b[24]; int i = 24;
  int base = (o.flags() & ios_base::basefield) == ios_base::hex ? 16 : (o.flags() & ios_base::basefield) == ios_base::oct ? 8 : 10;
  if (!kp_is_symbolic(v)) { do { b[--i] = "0123456789abcdef"[v % base]; v /= base; } while (v); }
  else if (kp_concretize(v >> 32 == 0)) {
    unsigned w = (unsigned)v, p = 1;
    for (;;) { unsigned d = w / p % (unsigned)base; b[--i] = (char)('0' + d + (d > 9 ? 39 : 0)); unsigned long q = (unsigned long)p * (unsigned)base; if (q >> 32 || kp_concretize(w < (unsigned)q)) break; p = (unsigned)q; }
  } else {
    unsigned long p = 1;
    for (;;) { unsigned long d = v / p % (unsigned long)base; b[--i] = (char)('0' + d + (d > 9 ? 39 : 0)); unsigned __int128 q = (unsigned __int128)p * (unsigned)base; if ((unsigned long)(q >> 64) || kp_concretize(v < (unsigned long)q)) break; p = (unsigned long)q; }
  }
  if (o.flags() & ios_base::uppercase) for (int k = i; k < 24; k++) if (b[k] >= 'a') b[k] -= 32;
  char c[30]; int n = 0;
  if (neg) c[n++] = '-'; else if ((o.flags() & ios_base::showpos) && base == 10) c[n++] = '+';
  if ((o.flags() & ios_base::showbase) && base != 10 && b[i] != '0') { c[n++] = '0'; if (base == 16) c[n++] = o.flags() & ios_base::uppercase ? 'X' : 'x'; }
  if (n) { int pad = (o.flags() & ios_base::adjustfield) == ios_base::internal ? (int)o.width() - n - (24 - i) : 0; if (pad > 0) { o.width(0); __ostream_insert(o, c, n); while (pad--) o.put(o.fill()); return __ostream_insert(o, b + i, 24 - i); } while (i < 24) c[n++] = b[i++]; return __ostream_insert(o, c, n); }
  return __ostream_insert(o, b + i, 24 - i);
}
}  // namespace std
extern "C" {
std::ostream &kpm__ZNSo9_M_insertImEERSoT_(std::ostream &o, unsigned long v) { return std::kp_num(o, v, false); }
std::ostream &kpm__ZNSo9_M_insertIyEERSoT_(std::ostream &o, unsigned long v) { return std::kp_num(o, v, false); }
std::ostream &kpm__ZNSo9_M_insertIlEERSoT_(std::ostream &o, long v) { return std::kp_num(o, (unsigned long)v, kp_concretize(v < 0)); }
std::ostream &kpm__ZNSo9_M_insertIxEERSoT_(std::ostream &o, long v) { return std::kp_num(o, (unsigned long)v, kp_concretize(v < 0)); }
std::ostream &kpm__ZNSo9_M_insertIbEERSoT_(std::ostream &o, bool v) { return std::kp_num(o, v, false); }
std::ostream &kpm__ZNSo9_M_insertIdEERSoT_(std::ostream &o, double) { kp_unsupported("floating-point formatting"); return o; }
std::ostream &kpm__ZNSo9_M_insertIPKvEERSoT_(std::ostream &o, const void *) { kp_unsupported("pointer formatting"); return o; }
std::ostream &kpm__ZNSolsEi(std::ostream &o, int v) { return kpm__ZNSo9_M_insertIlEERSoT_(o, v); }
long kpm__ZSt21__copy_streambufs_eofIcSt11char_traitsIcEElPSt15basic_streambufIT_T0_ES6_Rb(std::streambuf *in, std::streambuf *out, bool &ineof) {
  long n = 0; ineof = true;
  for (int c = in->sgetc(); c != -1; c = in->snextc()) { if (out->sputc((char)c) == -1) { ineof = false; break; } n++; }
  return n;
}
std::ostreambuf_iterator<char> kpm__ZNKSt8time_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE3putES3_RSt8ios_basecPK2tmPKcSB_(const void *, std::ostreambuf_iterator<char> o, std::ios_base &, char, const tm *t, const char *b, const char *e) {
  std::string f(b, e); char r[256]; size_t n = f.empty() ? 0 : ::strftime(r, sizeof r, f.c_str(), t); for (size_t i = 0; i < n; i++) { *o = r[i]; ++o; } return o;
}
// ---- number input ----
static std::istream &kp_get_num(std::istream &i, unsigned long &v, bool &neg, bool sgn, unsigned long max) {
  v = 0; neg = false; std::istream::sentry ok(i, false); if (!ok) return i;
  std::streambuf *sb = i.rdbuf(); int c = sb->sgetc(), base = (i.flags() & std::ios_base::basefield) == std::ios_base::hex ? 16 : (i.flags() & std::ios_base::basefield) == std::ios_base::oct ? 8 : (i.flags() & std::ios_base::basefield) == 0 ? 0 : 10;
  if (c == '-' || c == '+') { neg = c == '-'; c = sb->snextc(); }
  bool any = false, over = false;
  if (base != 10 && base != 8 && c == '0') { any = true; c = sb->snextc(); if (c == 'x' || c == 'X') { base = 16; any = false; c = sb->snextc(); } else if (!base) base = 8; }
  if (!base) base = 10;
  for (;; c = sb->snextc()) {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
    if (d >= base) break;
    any = true; if (v > (~0ul - (unsigned)d) / (unsigned)base) over = true; else v = v * (unsigned)base + (unsigned)d;
  }
  std::ios_base::iostate st = std::ios_base::goodbit;
  if (sgn && neg && v > max && v <= max + 1 && !over) ; else if (v > max) over = true;
  if (!any) { v = 0; neg = false; st |= std::ios_base::failbit; } else if (over) { v = sgn && neg ? max + 1 : max; if (!sgn) neg = false; st |= std::ios_base::failbit; }
  if (c == -1) st |= std::ios_base::eofbit;
  if (st) i.setstate(st);
  return i;
}
#define KP_GET(NAME, T, SGN, MAX) std::istream &NAME(std::istream &i, T &r) { unsigned long v; bool n; kp_get_num(i, v, n, SGN, MAX); r = (T)(n ? -v : v); return i; }
KP_GET(kpm__ZNSi10_M_extractImEERSiRT_, unsigned long, false, ~0ul)
KP_GET(kpm__ZNSi10_M_extractIyEERSiRT_, unsigned long, false, ~0ul)
KP_GET(kpm__ZNSi10_M_extractIjEERSiRT_, unsigned, false, 0xfffffffful)
KP_GET(kpm__ZNSi10_M_extractItEERSiRT_, unsigned short, false, 0xfffful)
KP_GET(kpm__ZNSi10_M_extractIlEERSiRT_, long, true, ~0ul >> 1)
KP_GET(kpm__ZNSi10_M_extractIxEERSiRT_, long, true, ~0ul >> 1)
KP_GET(kpm__ZNSirsERi, int, true, 0x7ffffffful)
KP_GET(kpm__ZNSirsERs, short, true, 0x7ffful)
std::istream &kpm__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(std::istream &i, std::string &s, char delim) {
  s.clear(); std::istream::sentry ok(i, true); if (!ok) return i;
  std::streambuf *sb = i.rdbuf(); std::ios_base::iostate st = std::ios_base::goodbit; bool any = false;
  for (;;) { int c = sb->sbumpc(); if (c == -1) { st |= std::ios_base::eofbit; break; } any = true; if ((char)c == delim) break; s.push_back((char)c); }
  if (!any) st |= std::ios_base::failbit;
  if (st) i.setstate(st);
  return i;
}
std::istream &kpm__ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE(std::istream &i, std::string &s) {
  std::istream::sentry ok(i, false); if (!ok) return i;
  s.clear(); std::streambuf *sb = i.rdbuf(); std::ios_base::iostate st = std::ios_base::goodbit; long w = i.width() > 0 ? i.width() : -1; int c = sb->sgetc();
  for (; w && c != -1 && !(c == ' ' || (c >= 9 && c <= 13)); c = sb->snextc(), w -= w > 0) s.push_back((char)c);
  if (c == -1 && w) st |= std::ios_base::eofbit;
  if (s.empty()) st |= std::ios_base::failbit;
  i.width(0); if (st) i.setstate(st);
  return i;
}
const void *kpm__ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale(const std::locale &) { return std::kp_ctype(); }
bool kpm__ZSt9has_facetISt5ctypeIcEEbRKSt6locale(const std::locale &) { return true; }
const void *kpm__ZSt15__try_use_facetISt5ctypeIcEEPKT_RKSt6locale(const std::locale &) { return std::kp_ctype(); }
}
namespace std {
// ---- containers ----
namespace __detail {
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { (void)n; return 1; }
}
size_t _Hash_bytes(const void *, size_t len, size_t) { return 0x9e3779b9u * len; }
size_t _Fnv_hash_bytes(const void *, size_t len, size_t) { return 0x9e3779b9u * len; }

// ordered containers: a binary search tree with the header of libstdc++ (parent: root, left: first, right: last),
// kept as balanced as a treap with fixed pseudo-random priorities in the colour field
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;      // the header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void kp_rot(_Rb_tree_node_base *x, bool left, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = left ? x->_M_right : x->_M_left, *c = left ? y->_M_left : y->_M_right;
  if (left) x->_M_right = c; else x->_M_left = c;
  if (c) c->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  (left ? y->_M_left : y->_M_right) = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  static unsigned rnd = 12345; rnd = rnd * 1664525u + 1013904223u;
  _Rb_tree_node_base *&root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = nullptr; unsigned pr = (rnd >> 2) | 2; x->_M_color = (_Rb_tree_color)pr;      // 0 marks the header (red)
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && (unsigned)x->_M_parent->_M_color < (unsigned)x->_M_color) kp_rot(x->_M_parent, x == x->_M_parent->_M_right, root);
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent;
  if (h._M_left == z) h._M_left = h._M_right == z ? &h : _Rb_tree_increment(z);
  if (h._M_right == z) h._M_right = h._M_left == &h ? &h : _Rb_tree_decrement(z);
  while (z->_M_left && z->_M_right) kp_rot(z, (unsigned)z->_M_right->_M_color > (unsigned)z->_M_left->_M_color, root);
  _Rb_tree_node_base *c = z->_M_left ? z->_M_left : z->_M_right;
  if (c) c->_M_parent = z->_M_parent;
  if (z == root) root = c; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = c; else z->_M_parent->_M_right = c;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
  _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  bool ex = x._M_next == &x, ey = y._M_next == &y; _List_node_base a = x, b = y;
  if (ey) x._M_next = x._M_prev = &x; else { x = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
  if (ex) y._M_next = y._M_prev = &y; else { y = a; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
}
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::from_time_t(::time(nullptr)); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration((long)::time(nullptr) * 1000000000)); }
} }

// ---- random_device: an arbitrary but fixed sequence ----
static unsigned kp_rd = 0x1234567;
void random_device::_M_init(const string &) {}
void random_device::_M_init(const char *, size_t) {}
void random_device::_M_init_pretr1(const string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { kp_rd = kp_rd * 1664525u + 1013904223u; return kp_rd; }
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
double random_device::_M_getentropy() const noexcept { return 32; }

// ---- exceptions ----
const char *exception::what() const noexcept { return "std::exception"; }
exception::~exception() noexcept {}
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
// __cow_string holds one pointer; keep a heap copy of the text
static const char *kp_dup(const char *s, size_t n) { char *p = (char *)__builtin_malloc(n + 1); __builtin_memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const string &s) { _M_p = kp_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = kp_dup(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, __builtin_strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, __builtin_strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define KP_EXC(C, B) C::C(const string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {}
KP_EXC(out_of_range, logic_error)
KP_EXC(length_error, logic_error)
KP_EXC(invalid_argument, logic_error)
KP_EXC(domain_error, logic_error)
KP_EXC(range_error, runtime_error)
KP_EXC(overflow_error, runtime_error)
KP_EXC(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
bool uncaught_exception() noexcept { return kp_uncaught() > 0; }
int uncaught_exceptions() noexcept { return kp_uncaught(); }
[[noreturn]] void __glibcxx_assert_fail(const char *, int, const char *, const char *c) noexcept { kp_fail("abort", c ? c : "libstdc++ assertion"); for (;;) {} }
}  // namespace std
extern "C" { char __libc_single_threaded = 1; void __cxa_bad_cast() { throw std::bad_cast(); } void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); } }
