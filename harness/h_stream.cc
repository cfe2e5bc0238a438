// C06, C07, C16: block stream, gzip stream, bounded and fixed-size input and output.
//  0 n bs wstyle rstyle        block stream round trip
//  1 L rstyle                  reading L arbitrary bytes as a block stream
//  2 n bs kind rstyle [step]   valid block stream with one alteration (0 byte, 1 truncated, 2 swapped, 3 repeated, 4 dropped, 5 byte after the end of data)
//  10 n wstyle rstyle zmode    gzip round trip
//  11 n rstyle zmode [lo step] truncated gzip stream
//  12 L rstyle zmode           arbitrary bytes behind the gzip magic (zmodel only)
//  13 n wstyle zmode           both streams stacked as in a KDBX file
#include "kdbxspec.h"
#include "stream.hh"
#include "exception.hh"
#include <sstream>
#include <iterator>
using namespace keepass;
typedef std::string Str;
using kdbxspec::blocks; using kdbxspec::unblocks; using kdbxspec::g32;
static uint64_t P(int i) { return kp_param(i); }
// n bytes: all symbolic when short, otherwise symbolic around the beginning, the end and multiples of `edge`
static Str data(size_t n, size_t edge, bool runs = false) {
  if (n <= 64) return kp::bytes(n, "data");
  Str d(n, 'x'); if (!runs) for (size_t i = 0; i < n; i++) d[i] = (char)(i * 7 + (i >> 8) * 3 + 1);
  auto sym = [&](size_t p, size_t k) { if (p < n) kp_symbolic(&d[p], std::min(k, n - p), "data"); };
  sym(0, 3); sym(n - 3, 3);
  if (edge) for (size_t e = edge, c = 0; e < n && c < 6; e += edge, c++) sym(e - 2, 4);
  return d;
}
static void wr(std::ostream &o, const Str &d, unsigned style) {
  switch (style) {
    case 0: for (char c : d) o.put(c); break;
    case 1: o.write(d.data(), d.size()); break;
    case 2: { size_t a = kp_choose(d.size() + 1, "cut"), b = a + kp_choose(d.size() - a + 1, "cut"); o.write(d.data(), a); o << d.substr(a, b - a); o.write(d.data() + b, d.size() - b); break; }
    case 3: for (size_t p = 0; p < d.size(); p += 1000) { o.write(d.data() + p, std::min<size_t>(1000, d.size() - p)); } break;
    default: o.rdbuf()->sputn(d.data(), d.size());
  }
}
enum End { NORMAL, FAILED };
static End rd(std::streambuf &b, Str &out, unsigned style, size_t hint) {
  out.clear();
  try {
    switch (style) {
      case 0: for (int c = b.sgetc(); c != EOF; c = b.sgetc()) { kp_check(c >= 0 && c < 256, "character out of range"); int e = b.sbumpc(); kp_check(e == c, "peeked and consumed characters differ"); out += (char)c; } return NORMAL;
      case 1: case 2: {      // read() in one piece, in pieces
        std::istream i(&b); size_t k = style == 1 ? hint + 8 : 1 + kp_choose(hint + 2, "read size");
        for (;;) { Str t(k, 0); i.read(&t[0], k); out += t.substr(0, i.gcount()); if (i.bad()) return FAILED; if (i.eof()) return NORMAL; kp_check(i.good(), "stream failed without reason"); }
      }
      case 3: { std::istreambuf_iterator<char> it(&b), e; std::copy(it, e, std::back_inserter(out)); return NORMAL; }
      case 4: { std::istream i(&b); char c; while (i.get(c)) out += c; return i.bad() ? FAILED : NORMAL; }
      default: { std::istream i(&b); std::vector<char> t(4096); while (i) { i.read(t.data(), t.size()); out.append(t.data(), i.gcount()); } return i.bad() ? FAILED : NORMAL; }
    }
  } catch (const IoError &) { return FAILED; } catch (const FormatError &) { return FAILED; }
}
static bool prefix(const Str &p, const Str &d) {
  if (p.size() > d.size()) return false;
  for (size_t i = 0; i < p.size(); i++) if (p[i] != d[i]) return false;
  return true;
}
static Str enc(const Str &d, uint32_t bs, unsigned style) {
  std::stringstream ss;
  if (bs == ~0u) { hashed_ostreambuf b(ss); std::ostream o(&b); wr(o, d, style); o.flush(); kp_check(o.good(), "writing to the block stream failed"); }
  else { hashed_ostreambuf b(ss, bs); std::ostream o(&b); wr(o, d, style); o.flush(); kp_check(o.good(), "writing to the block stream failed"); }
  return ss.str();
}
static Str gzenc(const Str &d, unsigned style) {
  std::stringstream ss;
  { gzip_ostreambuf b(ss); std::ostream o(&b); wr(o, d, style); o.flush(); kp_check(o.good(), "writing to the gzip stream failed"); }
  return ss.str();
}
static void equal(const Str &a, const Str &b, const char *what) {
  kp_check(a.size() == b.size(), what); kp_check(prefix(a, b), what);
}
// the data of the leading valid blocks and whether the sequence is properly terminated, by an independent decoder
static bool leading(const Str &s, Str &out, size_t &used) {
  size_t p = 0; uint32_t i = 0; out.clear(); used = 0;
  for (;;) {
    if (s.size() < p + 40 || g32(s, p) != i++) return false;
    uint32_t n = g32(s, p + 36); Str h = s.substr(p + 4, 32); p += 40;
    if (!n) { used = p; for (char c : h) if (c) return false; return true; }
    if (s.size() - p < n) return false;
    Str d = s.substr(p, n); if (spec::sha256(d) != h) return false;
    out += d; p += n;
  }
}
static void blockstream(unsigned mode) {
  if (mode == 0) {
    size_t n = P(1); uint32_t bs = P(2);
    Str d = data(n, bs == ~0u ? 1 << 20 : bs); Str e = enc(d, bs, P(3)), dec, back;
    kp_check(unblocks(e, dec), "written block stream is not valid"); equal(dec, d, "written block stream holds other data");
    std::stringstream ss(e); hashed_istreambuf b(ss); End r = rd(b, back, P(4), n);
    kp_check(r == NORMAL, "reading back failed"); equal(back, d, "data read back differs"); kp_reach("done");
  } else if (mode == 1) {
    Str e = kp::bytes(P(1), "file"), want, got; size_t used;
    std::stringstream ss(e); hashed_istreambuf b(ss); End r = rd(b, got, P(2), 40);
    bool ok = leading(e, want, used);
    if (r == NORMAL || P(2) == 0 || P(2) == 3 || P(2) == 4) equal(got, want, "delivered data are not those of the valid leading blocks");
    else kp_check(prefix(got, want), "delivered data are not those of the valid leading blocks");      // read() drops what it got before a failure
    kp_check((r == NORMAL) == ok, "end of data and failure confused"); kp_reach("done");
  } else {
    size_t n = P(1); uint32_t bs = P(2); Str d = data(n, bs); std::vector<Str> bl; uint32_t i = 0;
    for (size_t p = 0; p < n; p += bs) bl.push_back(kdbxspec::block(i++, d.substr(p, bs)));
    for (auto &x : bl) { char o = 0; for (int k = 4; k < 36; k++) o |= x[k]; kp_assume(o != 0); }      // no known data have the hash zero
    bl.push_back(kdbxspec::endblock(i));
    Str e; bool same = false;
    switch (P(3)) {
      case 0: { for (auto &x : bl) e += x; size_t step = P(5) ? P(5) : 1, p = kp_choose((e.size() + step - 1) / step, "position") * step; uint8_t v = kp::u8("value"); kp_assume(v != (uint8_t)e[p]); e[p] = (char)v; break; }
      case 1: { for (auto &x : bl) e += x; e.resize(kp_choose(e.size(), "length")); break; }
      case 2: { size_t a = kp_choose(bl.size(), "first"), b = kp_choose(bl.size(), "second"); kp_assume(a < b); std::swap(bl[a], bl[b]); for (auto &x : bl) e += x; break; }
      case 3: { size_t a = kp_choose(bl.size(), "repeated"), b = kp_choose(bl.size() + 1, "where"); kp_assume(b != a + 1 && b != a); bl.insert(bl.begin() + b, bl[a]); for (auto &x : bl) e += x; same = b == bl.size() - 1; break; }
      case 4: { bl.erase(bl.begin() + kp_choose(bl.size(), "dropped")); for (auto &x : bl) e += x; break; }
      default: { size_t a = kp_choose(bl.size() - 1, "block"); Str nb = kdbxspec::block(a, d.substr(a * bs, bs)); kp_assume(nb.size() > 41);       // contents of one block altered in two places, header kept
        uint8_t v = kp::u8("value"), w = kp::u8("value"); size_t q = 40 + kp_choose(nb.size() - 41, "position"); kp_assume(v != (uint8_t)nb[q]); nb[q] = (char)v; nb[q + 1] = (char)w; bl[a] = nb; for (auto &x : bl) e += x; }
    }
    Str got; std::stringstream ss(e); hashed_istreambuf b(ss); End r = rd(b, got, P(4), n + 40);
    kp_check(prefix(got, d), "altered data delivered"); kp_check(got.size() % bs == 0 || got.size() == n || P(4) == 1 || P(4) == 2 || P(4) == 5, "part of a block delivered");
    if (!same) kp_check(r == FAILED || (P(3) == 3 && got.size() == n), "alteration not reported");
    kp_reach("done");
  }
}
static void gzip(unsigned mode) {
  if (mode == 10) {
    kp_zlib_mode(P(4)); size_t n = P(1); Str d = data(n, 16384, P(5)); Str e = gzenc(d, P(2)), back;
    if (!P(4)) { Str dec; kp_check(kdbxspec::ungz(e, dec), "written gzip stream is not valid"); equal(dec, d, "written gzip stream holds other data"); }
    std::stringstream ss(e); gzip_istreambuf b(ss); End r = rd(b, back, P(3), n);
    kp_check(r == NORMAL, "reading back failed"); equal(back, d, "data read back differs"); kp_reach("done");
  } else if (mode == 11) {
    size_t n = P(1); Str d = data(n, 16384, P(6)), e = kdbxspec::gz(d), got; kp_zlib_mode(P(3));
    size_t step = P(5) ? P(5) : 1, lo = P(4); if (lo >= e.size()) return;
    e.resize(lo + step * kp_choose((e.size() - lo + step - 1) / step, "length")); bool empty = e.empty();
    std::stringstream ss(e); gzip_istreambuf b(ss); End r = rd(b, got, P(2), n);
    kp_check(prefix(got, d), "bytes that were not written"); kp_check(empty ? got.empty() : r == FAILED, "truncation not reported"); kp_reach("done");
  } else if (mode == 12) {      // arbitrary bytes
    size_t n = P(1); Str e = kp::bytes(n, "file"), want, got; if (P(4) > 0 && n > 0) e[0] = 0x1f; if (P(4) > 1 && n > 1) e[1] = (char)0x8b;
    std::stringstream ss(e); kp_zlib_mode(P(3) | 4); gzip_istreambuf b(ss); End r = rd(b, got, P(2), 40);
    kp_zlib_mode(4); z_stream z; memset(&z, 0, sizeof z); inflateInit2(&z, 16 + MAX_WBITS); want.resize(70000);
    z.next_in = (Bytef *)e.data(); z.avail_in = n; z.next_out = (Bytef *)&want[0]; z.avail_out = want.size();
    bool ok = n == 0 || inflate(&z, Z_FINISH) == Z_STREAM_END; want.resize(want.size() - z.avail_out); inflateEnd(&z);
    kp_check(prefix(got, want), "bytes that are not in the stream");
    kp_check((r == NORMAL) == ok, "failure and end of data confused"); if (ok) kp_check(got.size() == want.size(), "data lost"); kp_reach("done");
  } else if (mode == 13) {
    kp_zlib_mode(P(3)); size_t n = P(1); Str d = data(n, 16384, P(5)), back; uint32_t bs = P(4); std::stringstream ss;
    { hashed_ostreambuf hb(ss, bs); std::ostream ho(&hb); gzip_ostreambuf gb(ho); std::ostream go(&gb); wr(go, d, P(2)); go.flush(); kp_check(go.good(), "writing failed"); ho.flush(); kp_check(ho.good(), "writing failed"); }
    std::stringstream in(ss.str()); hashed_istreambuf hb(in); std::istream hi(&hb); gzip_istreambuf gb(hi); End r = rd(gb, back, 5, n);
    kp_check(r == NORMAL, "reading back failed"); equal(back, d, "data read back differs"); kp_reach("done");
  } else {                      // 14: zlib fails at any call: reported by writer and reader, nothing invented
    size_t n = P(1); Str d = data(n, 0), got; kp_zlib_mode(2 | P(4)); std::stringstream ss; bool wok = true;
    try { gzip_ostreambuf b(ss); std::ostream o(&b); wr(o, d, P(2)); o.flush(); wok = o.good(); } catch (const IoError &) { wok = false; }
    kp_zlib_mode(0); Str dec; bool dok = kdbxspec::ungz(ss.str(), dec);
    if (wok) { kp_check(dok, "failed compression not reported"); equal(dec, d, "failed compression not reported"); kp_reach("written"); } else kp_reach("write failed");
    if (wok) { std::stringstream in(ss.str()); kp_zlib_mode(2 | P(4)); gzip_istreambuf b(in); End r = rd(b, got, P(3), n); kp_check(prefix(got, d), "bytes that were not written"); if (r == NORMAL) { kp_check(got.size() == n, "data lost without failure"); kp_reach("read"); } else kp_reach("read failed"); }
    kp_reach("done");
  }
}
extern "C" void kp_main() { kp_crypto_mode(0); unsigned m = P(0); if (m < 10) blockstream(m); else gzip(m); }
