// C15: time stamps.
//  0 i tz cycles     KDB, stamp number i of 16 arbitrary (0: never), written by the library
//  1 i tz cycles     KDBX, stamp number i of 56
//  2 i tz            KDB file of the independent codec with an arbitrary packed time
//  3 i tz            KDBX file of the independent codec with the text of an arbitrary time
//  tz: 0 UTC, 1 one hour east, 2 five hours west, 3 daylight saving time
#include "kdbxspec.h"
#include "kdb.hh"
#include "kdbx.hh"
#include <ctime>
using namespace keepass; using gen::Str;
static uint64_t P(int i) { return kp_param(i); }
static int g_off; static bool g_dst;
static void zone(uint64_t z) { g_off = z == 1 ? 3600 : z == 2 ? -5 * 3600 : 0; g_dst = z == 3; kp_tz(g_off, g_dst); }
// any second of 1970..2105 and never; near the ends and in the hour that occurs twice, local times are not defined or not unique
static std::time_t stamp() {
  uint32_t v = kp::u32("time"); if (!g_off && !g_dst) { kp_assume(v < 4291747200u); return v; }
  kp_assume(v == 0 || (v >= 86400 && v < 4291747200u - 86400)); if (!v) return 0;
  std::time_t t = v; if (g_dst) { std::tm m; gmtime_r(&t, &m); kp_assume(!(m.tm_mon == 9 && m.tm_mday == 27 && m.tm_hour >= 22)); }
  return t;
}
static Str packed(std::time_t t) {
  if (!t) return kdbspec::never();
  std::tm m = std::tm(); std::time_t u = t + g_off; gmtime_r(&u, &m);
  if (g_dst && ((m.tm_mon > 3 && m.tm_mon < 9) || m.tm_mon == 3 || (m.tm_mon == 9 && m.tm_mday < 28 && !(m.tm_mday == 27 && m.tm_hour == 23)))) { u += 3600; gmtime_r(&u, &m); }
  return kdbspec::ptime((unsigned)m.tm_year + 1900, (unsigned)m.tm_mon + 1, (unsigned)m.tm_mday, (unsigned)m.tm_hour, (unsigned)m.tm_min, (unsigned)m.tm_sec);
}
struct Obj { std::shared_ptr<Group> g[2]; std::shared_ptr<Entry> e[2]; };
static void objects(const Database &db, Obj &o) { auto r = db.root(); o.g[0] = r->Groups().at(0); o.g[1] = o.g[0]->Groups().at(0); o.e[0] = o.g[0]->Entries().at(0); o.e[1] = o.g[1]->Entries().at(0); }
template <class T> static void set(T &x, unsigned k, std::time_t t) { switch (k) { case 0: x.set_creation_time(t); break; case 1: x.set_modification_time(t); break; case 2: x.set_access_time(t); break; default: x.set_expiry_time(t); } }
template <class T> static std::time_t get(const T &x, unsigned k) { return k == 0 ? x.creation_time() : k == 1 ? x.modification_time() : k == 2 ? x.access_time() : x.expiry_time(); }
static void set16(Obj &o, unsigned i, std::time_t t) { if (i < 8) set(*o.g[i / 4], i % 4, t); else set(*o.e[i / 4 - 2], i % 4, t); }
static std::time_t get16(Obj &o, unsigned i) { return i < 8 ? get(*o.g[i / 4], i % 4) : get(*o.e[i / 4 - 2], i % 4); }
// the packed times of a decrypted KDB body, in the order of set16
static bool stamps(const Str &b, std::vector<Str> &out) {
  size_t p = 0; unsigned recs = 0; out.assign(16, Str());
  while (p < b.size()) { if (b.size() - p < 6) return false; unsigned t = (uint8_t)b[p] | (uint8_t)b[p + 1] << 8; uint32_t n = kdbspec::g32(b, p + 2); p += 6; if (b.size() - p < n) return false; 
    unsigned f = recs < 2 ? 3 : 9; if (t >= f && t < f + 4) { if (recs >= 4) return false; out[recs * 4 + t - f] = b.substr(p, n); } p += n; if (t == 0xffff) recs++; }
  return recs == 4;
}
static const std::time_t kFix[4] = {1000000000, 0, 1400000000, 86400};
static void kdb(bool codec) {
  Database db; auto root = std::make_shared<Group>(); db.set_root(root); Obj o; for (int i = 0; i < 2; i++) { o.g[i] = std::make_shared<Group>(); o.g[i]->set_name("g"); o.e[i] = std::make_shared<Entry>(); o.e[i]->set_title(gen::plain("e")); }
  root->AddGroup(o.g[0]); o.g[0]->AddGroup(o.g[1]); o.g[0]->AddEntry(o.e[0]); o.g[1]->AddEntry(o.e[1]);
  gen::KeySpec ks; ks.has_pass = true; ks.pass = "pw"; Key key = gen::mkkey(ks, 1); kdbspec::Header h = kdbspec::stdheader(); h.rounds = 1;
  db.set_master_seed(spec::arr<16>(h.mseed)); db.set_init_vector(spec::arr<16>(h.iv)); db.set_transform_seed(spec::arr<32>(h.tseed)); db.set_transform_rounds(1); db.set_cipher(Database::Cipher::kAes);
  for (unsigned i = 0; i < 16; i++) set16(o, i, kFix[(i + i / 4) % 4]);
  std::time_t want[16]; Str sym; for (unsigned i = 0; i < 16; i++) want[i] = get16(o, i);
  if (!codec) { std::time_t t = stamp(); set16(o, P(1), t); want[P(1)] = t; }
  KdbFile f; f.Export(kp::path("a.kdb"), db, key); Str file = kp::get("a.kdb");
  auto check = [&](const Str &fl, const char *what) {
    kdbspec::Header g; Str body, plain; std::vector<Str> st; if (!kdbspec::parse(fl, g, body) || !spec::cbc_dec(spec::AesBlock(kdbspec::finalkey(g, ks)), g.iv, body, plain) || !stamps(plain, st)) { kp_fail("assert", "the file does not decode"); return Str(); }
    for (unsigned i = 0; i < 16; i++) gen::same(st[i], codec && i == P(1) ? sym : packed(want[i]), what); return plain; };
  if (codec) {      // replace one stamp of the file by arbitrary bytes
    kdbspec::Header g; Str body, plain; kdbspec::parse(file, g, body); spec::cbc_dec(spec::AesBlock(kdbspec::finalkey(g, ks)), g.iv, body, plain);
    sym = kp::bytes(5, "packed"); size_t p = 0; unsigned recs = 0; 
    while (p < plain.size()) { unsigned t = (uint8_t)plain[p] | (uint8_t)plain[p + 1] << 8; uint32_t n = kdbspec::g32(plain, p + 2); p += 6; unsigned fi = recs < 2 ? 3 : 9; if (t >= fi && t < fi + 4 && recs * 4 + t - fi == P(1)) plain.replace(p, 5, sym); p += n; if (t == 0xffff) recs++; }
    h.ngroups = 2; h.nentries = 2; kp::put("a.kdb", kdbspec::build(h, ks, plain));
    auto b = [&](int i) { return (unsigned)(uint8_t)sym[i]; };
    unsigned y = b(0) << 6 | b(1) >> 2, mo = (b(1) & 3) << 2 | b(2) >> 6, d = b(2) >> 1 & 31, hh = (b(2) & 1) << 4 | b(3) >> 4, mi = (b(3) & 15) << 2 | b(4) >> 6, s = b(4) & 63;
    bool never = true; for (int i = 0; i < 5; i++) never &= sym[i] == kdbspec::never()[i];
    static const unsigned char dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    bool valid = y >= 1970 && y <= 2105 && mo >= 1 && mo <= 12 && d >= 1 && d <= dm[(mo - 1) % 12] + (mo == 2 && y % 4 == 0 && y != 2100) && hh < 24 && mi < 60 && s < 60;
    if (g_off || g_dst) valid = valid && y > 1970 && y < 2105;
    if (g_dst) valid = valid && !(mo == 10 && d == 27 && hh == 23) && !(mo == 4 && d == 1 && hh == 0);
    kp_assume(never || (valid && b(0) < 64 && !(y == 1970 && mo == 1 && d == 1 && !hh && !mi && !s)));
    if (never) want[P(1)] = 0; else {
      std::tm m = std::tm(); m.tm_year = (int)y - 1900; m.tm_mon = (int)mo - 1; m.tm_mday = (int)d; m.tm_hour = (int)hh; m.tm_min = (int)mi; m.tm_sec = (int)s; std::time_t t = timegm(&m) - g_off;
      if (g_dst && (mo > 4 || (mo == 4 && (d > 1 || hh > 0))) && (mo < 10 || (mo == 10 && d < 28))) t -= 3600;
      want[P(1)] = t;
    }
  } else check(file, "packed time in the file");
  kp_reach("written"); KdbFile r; auto d = r.Import(kp::path("a.kdb"), key); Obj q;
  for (unsigned c = 0;; c++) {
    objects(*d, q); for (unsigned i = 0; i < 16; i++) kp_check(get16(q, i) == want[i], "time differs after reloading");
    if (c >= P(3)) break;
    KdbFile x; x.Export(kp::path("b.kdb"), *d, key); check(kp::get("b.kdb"), "packed time in the saved file"); KdbFile y; d = y.Import(kp::path("b.kdb"), key);
  }
  kp_reach("done");
}
static void elements(const kdbxspec::El &e, std::vector<Str> &v) { static const char *n[] = {"LastModificationTime", "CreationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"}; for (auto x : n) if (e.name == x) v.push_back(e.text); if (e.name.size() > 7 && e.name.substr(e.name.size() - 7) == "Changed" && e.name != "LocationChanged") v.push_back(e.text); for (auto &k : e.kids) elements(k, v); }
static bool times_of(const Str &file, const gen::KeySpec &ks, std::vector<Str> &v) {
  kdbxspec::Header h; Str xml, hash; kdbxspec::El root; v.clear(); if (!kdbxspec::open(file, ks, h, xml, hash)) return false;
  kdbxspec::Reader r(xml); if (!r.read(root)) return false; elements(root, v); return true;
}
static void kdbx(bool codec) {
  gen::KeySpec ks; ks.has_pass = true; ks.pass = "pw"; Key key = gen::mkkey(ks, 1); Database db, plain; std::vector<Str> a, b; std::time_t t = 0; Str text;
  t = stamp(); text = kdbxspec::iso(t);
  // the document in the clear
  gen::Sel s0; gen::fixed_params(db, 0); gen::rich(db, s0);
  KdbxFile f; unsigned at = 0, n = 0;
  { f.Export(kp::path("a.kdbx"), db, key); if (!times_of(kp::get("a.kdbx"), ks, a)) { kp_fail("assert", "the file does not decode"); return; }
    // which of the stamps of the document belongs to this field: the one that changes with it
    Database d1; gen::fixed_params(d1, 0); gen::Sel sx; sx.marktime = (int)P(1); gen::rich(d1, sx); KdbxFile f1; f1.Export(kp::path("a.kdbx"), d1, key); times_of(kp::get("a.kdbx"), ks, b);
    kp_check(a.size() == b.size(), "document changes its shape"); for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) { at = i; n++; } kp_check(n == 1, "one time stamp per field"); kp_check(b[at] == "2033-05-18T03:33:20Z", "encoding of a time stamp"); }
  Database d2; gen::fixed_params(d2, 0); gen::Sel sy; sy.marktime = (int)P(1); sy.mark = t; gen::rich(d2, sy); std::unique_ptr<Database> d3;
  auto check = [&](const char *name) { if (!times_of(kp::get(name), ks, b)) { kp_fail("assert", "the file does not decode"); return; } kp_check(a.size() == b.size(), "document changes its shape"); for (size_t i = 0; i < a.size() && i < b.size(); i++) gen::same(b[i], i == at ? text : a[i], i == at ? "time in the file" : "other time in the file"); };
  if (codec) {
    kp::put("b.kdbx", kdbxspec::write_file(d2, ks, 1 << 20));
  } else { KdbxFile f1; f1.Export(kp::path("b.kdbx"), d2, key); check("b.kdbx"); }
  kp_reach("written"); KdbxFile r; d3 = r.Import(kp::path("b.kdbx"), key);
  for (unsigned c = 0;; c++) { gen::cmp_kdbx(d2, *d3); if (c >= P(3)) break; KdbxFile x; x.Export(kp::path("b.kdbx"), *d3, key); check("b.kdbx"); KdbxFile y; d3 = y.Import(kp::path("b.kdbx"), key); }
  kp_reach("done");
}
extern "C" void kp_main() { kp_crypto_mode(0); zone(P(2)); switch (P(0)) { case 0: kdb(false); break; case 1: kdbx(false); break; case 2: kdb(true); break; default: kdbx(true); } }
