// C19 (KDB): files written by the library decode with an independent codec, files of the independent codec are imported.
// params: direction (0 library writes, 1 codec writes), cipher, key kind, rounds, lengths of gname title url user password notes aname, attachment size (99999: none), variation,
// 1 + the rest of the content's size after division by 1024 (0: as it comes)
#include "kdbspec.h"
#include "kdb.hh"
#include <algorithm>
#include <ctime>
using namespace keepass; using kdbspec::Str; using namespace kdbspec;
static uint64_t P(int i) { return kp_param(i); }
static Str pack(std::time_t t) {
  if (!t) return never();
  std::tm m = std::tm(); gmtime_r(&t, &m); return ptime((unsigned)m.tm_year + 1900, (unsigned)m.tm_mon + 1, (unsigned)m.tm_mday, (unsigned)m.tm_hour, (unsigned)m.tm_min, (unsigned)m.tm_sec);
}
static Str z(const Str &s) { return s + Str(1, 0); }
struct G { uint32_t id; uint16_t level; std::shared_ptr<Group> g; };
static void flat(const std::shared_ptr<Group> &g, uint16_t level, std::vector<G> &v) { for (auto &c : g->Groups()) { v.push_back({(uint32_t)v.size() + 7, level, c}); flat(c, level + 1, v); } }
// P(12): variations other programs are free to use.  1: fields of a record in reverse order, 2: comment fields (type 0) in between,
// 4: entries in reverse order of the groups, 8: arbitrary group ids, 16: empty optional fields left out, 32: entries' group id last
static Str record_of(std::vector<std::pair<int, Str>> f, bool entry) {
  unsigned v = (unsigned)P(12); Str r;
  if (v & 1) std::reverse(f.begin(), f.end());
  if ((v & 32) && entry) for (size_t i = 0; i < f.size(); i++) if (f[i].first == 2) { auto x = f[i]; f.erase(f.begin() + (long)i); f.push_back(x); break; }
  for (size_t i = 0; i < f.size(); i++) {
    if ((v & 2) && i % 3 == 1) r += field(0, i == 1 ? kp::bytes(3, "comment") : Str(i, 'c'));
    if ((v & 16) && entry && f[i].first >= 4 && f[i].second.size() <= (f[i].first != 14 ? 1 : 0)) continue;
    r += field((uint16_t)f[i].first, f[i].second);
  }
  return r + field(0xffff, "");
}
static Str content_of(const Database &db, std::vector<G> &gs, unsigned &ne) {
  Str r; ne = 0; flat(db.root(), 0, gs);
  if (P(12) & 8) for (size_t i = 0; i < gs.size(); i++) { gs[i].id = kp::u32("gid"); kp_assume(gs[i].id != 0 && gs[i].id != 0xffffffff); for (size_t j = 0; j < i; j++) kp_assume(gs[i].id != gs[j].id); }
  for (auto &x : gs) { auto &g = *x.g; r += record_of({{1, n32(x.id)}, {2, z(g.name())}, {3, pack(g.creation_time())}, {4, pack(g.modification_time())}, {5, pack(g.access_time())}, {6, pack(g.expiry_time())}, {7, n32(g.icon())}, {8, n16(x.level)}, {9, n32(g.flags())}}, false); }
  for (size_t i = 0; i < gs.size(); i++) {
    auto &x = gs[P(12) & 4 ? gs.size() - 1 - i : i];
    for (auto &ep : x.g->Entries()) {
      auto &e = *ep; ne++; Str an, ad; if (!e.attachments().empty()) { an = e.attachments()[0]->name(); ad = *e.attachments()[0]->binary()->data(); }
      r += record_of({{1, spec::str(e.uuid())}, {2, n32(x.id)}, {3, n32(e.icon())}, {4, z(*e.title())}, {5, z(*e.url())}, {6, z(*e.username())}, {7, z(*e.password())}, {8, z(*e.notes())}, {9, pack(e.creation_time())}, {10, pack(e.modification_time())}, {11, pack(e.access_time())}, {12, pack(e.expiry_time())}, {13, z(an)}, {14, ad}}, true);
    }
  }
  return r;
}
struct Rec { Str f[15]; bool have[15] = {}; };
static bool record(const Str &s, size_t &p, Rec &r) {
  for (;;) {
    if (s.size() - p < 6) return false;
    unsigned t = (uint8_t)s[p] | (uint8_t)s[p + 1] << 8; uint32_t n = g32(s, p + 2); p += 6; if (s.size() - p < n) return false;
    if (t == 0xffff) return n == 0;
    if (t < 15) { r.f[t] = s.substr(p, n); r.have[t] = true; } else if (t) return false;
    p += n;
  }
}
static void same(const Str &a, const Str &b, const char *l) { gen::same(a, b, l); }
static void cmp_group(const Group &a, const Group &b) {
  same(a.name(), b.name(), "group name"); kp_check(a.icon() == b.icon(), "group icon"); kp_check(a.flags() == b.flags(), "group flags"); kp_check(a.creation_time() == b.creation_time(), "group creation time"); kp_check(a.modification_time() == b.modification_time(), "group modification time");
  kp_check(a.access_time() == b.access_time(), "group access time"); kp_check(a.expiry_time() == b.expiry_time(), "group expiry time");
  kp_check(a.Groups().size() == b.Groups().size(), "number of sub-groups"); kp_check(a.Entries().size() == b.Entries().size(), "number of entries");
  for (size_t i = 0; i < a.Entries().size() && i < b.Entries().size(); i++) {
    auto &x = *a.Entries()[i]; auto &y = *b.Entries()[i];
    same(spec::str(x.uuid()), spec::str(y.uuid()), "entry id"); kp_check(x.icon() == y.icon(), "entry icon"); same(*x.title(), *y.title(), "title"); same(*x.url(), *y.url(), "URL"); same(*x.username(), *y.username(), "user name"); same(*x.password(), *y.password(), "password"); same(*x.notes(), *y.notes(), "notes");
    kp_check(x.creation_time() == y.creation_time(), "entry creation time"); kp_check(x.modification_time() == y.modification_time(), "entry modification time"); kp_check(x.access_time() == y.access_time(), "entry access time"); kp_check(x.expiry_time() == y.expiry_time(), "entry expiry time");
    kp_check(x.attachments().size() == y.attachments().size(), "number of attachments");
    if (x.attachments().size() == 1 && y.attachments().size() == 1) { same(x.attachments()[0]->name(), y.attachments()[0]->name(), "attachment name"); kp_check(!!y.attachments()[0]->binary(), "attachment data present"); if (y.attachments()[0]->binary()) same(*x.attachments()[0]->binary()->data(), *y.attachments()[0]->binary()->data(), "attachment data"); }
  }
  for (size_t i = 0; i < a.Groups().size() && i < b.Groups().size(); i++) cmp_group(*a.Groups()[i], *b.Groups()[i]);
}
static Str T(size_t n, const char *name) { return P(1) ? Str(n, (char)('a' + n % 26)) : gen::text(n, name); }
extern "C" void kp_main() {
  kp_crypto_mode(0); uint64_t cip = P(1), kk = P(2);
  Database db; auto root = std::make_shared<Group>(); db.set_root(root); Header h = stdheader(); gen::KeySpec ks = gen::keyspec(kk, cip ? 0 : 4, !cip); if (cip && (kk & 1)) ks.pass = "pw";
  if (!cip) { h.mseed = kp::bytes(16, "mseed"); h.iv = kp::bytes(16, "iv"); h.tseed = kp::bytes(32, "tseed"); }
  h.rounds = P(3); h.flags = cip ? 9 : 3; db.set_cipher(cip ? Database::Cipher::kTwofish : Database::Cipher::kAes);
  db.set_master_seed(spec::arr<16>(h.mseed)); db.set_init_vector(spec::arr<16>(h.iv)); db.set_transform_seed(spec::arr<32>(h.tseed)); db.set_transform_rounds(P(3));
  // A(e0, e1) - B(e2) ; C
  std::shared_ptr<Group> g[3]; for (int i = 0; i < 3; i++) { g[i] = std::make_shared<Group>(); g[i]->set_name(i == 0 ? T(P(4), "gname") : Str(1, (char)('B' + i))); g[i]->set_icon(cip ? 5 : kp::u32("gicon")); g[i]->set_flags(cip ? 6 : kp::u16("gflags")); if (i == 1 && !cip) { g[i]->set_creation_time(gen::time("gct")); g[i]->set_modification_time(gen::time("gmt")); g[i]->set_access_time(gen::time("gat")); g[i]->set_expiry_time(gen::time("get")); } else g[i]->set_modification_time(1400000000 + i); }
  root->AddGroup(g[0]); g[0]->AddGroup(g[1]); root->AddGroup(g[2]);
  for (int i = 0; i < 3; i++) {
    auto e = std::make_shared<Entry>(); if (!cip) e->set_uuid(gen::a16("uuid")); e->set_icon(cip ? 9 : kp::u32("icon")); e->set_title(gen::plain("t" + Str(1, (char)('0' + i)))); e->set_creation_time(1300000000 + i);
    if (i == 1) {
      e->set_title(gen::plain(T(P(5), "title"))); e->set_url(gen::plain(T(P(6), "url"))); e->set_username(gen::plain(T(P(7), "user"))); e->set_password(gen::plain(T(P(8), "password"))); e->set_notes(gen::plain(T(P(9), "notes")));
      if (!cip) { e->set_creation_time(gen::time("ect")); e->set_modification_time(gen::time("emt")); e->set_access_time(gen::time("eat")); e->set_expiry_time(gen::time("eet")); }
      if (P(11) != 99999 || P(13)) { auto a = std::make_shared<Entry::Attachment>(); a->set_name(T(P(10) + 1, "aname")); a->set_binary(std::make_shared<Binary>(gen::plain(cip ? Str(P(11), (char)0xe7) : gen::data(P(11), "adata")))); e->AddAttachment(a); }
    }
    g[i == 2]->AddEntry(e);
  }
  Key key = gen::mkkey(ks, kk);
  if (P(13)) {
    auto a = root->Groups()[0]->Entries()[1]->attachments()[0]; a->set_binary(std::make_shared<Binary>(gen::plain(Str()))); std::vector<G> gs; unsigned ne; size_t c0 = content_of(db, gs, ne).size(), want = (size_t)P(13) - 1, n = (want + 1024 - c0 % 1024) % 1024;
    a->set_binary(std::make_shared<Binary>(gen::plain(cip ? Str(n, (char)0xe7) : gen::data(n, "adata"))));
  }
  if (P(0)) {
    std::vector<G> gs; unsigned ne; Str c = content_of(db, gs, ne); h.ngroups = gs.size(); h.nentries = ne;
    kp::put("b.kdb", build(h, ks, c)); KdbFile f; auto d2 = f.Import(kp::path("b.kdb"), key);
    same(spec::str(db.init_vector()), spec::str(d2->init_vector()), "initialisation vector"); kp_check(db.cipher() == d2->cipher(), "cipher"); cmp_group(*root, *d2->root()); kp_reach("done"); return;
  }
  KdbFile f; f.Export(kp::path("a.kdb"), db, key);
  Header q; Str body, plain; kp_check(parse(kp::get("a.kdb"), q, body), "header size");
  same(q.sig0, h.sig0, "signature"); same(q.sig1, h.sig1, "signature"); kp_check((q.version & 0xffffff00u) == 0x00030000u, "version");
  kp_check(!(q.flags & 4) && !!(q.flags & 2) == !cip && !!(q.flags & 8) == !!cip, "cipher flags");
  same(q.mseed, h.mseed, "master seed"); same(q.iv, h.iv, "initialisation vector"); same(q.tseed, h.tseed, "transform seed"); kp_check(q.rounds == h.rounds, "rounds"); kp_check(q.ngroups == 3, "group count"); kp_check(q.nentries == 3, "entry count");
  Str k = finalkey(q, ks); bool ok = cip ? spec::cbc_dec(spec::TwofishBlock(k), q.iv, body, plain) : spec::cbc_dec(spec::AesBlock(k), q.iv, body, plain);
  if (!ok) { kp_fail("assert", "the content does not decrypt"); return; }
  same(q.hash, spec::sha256(plain), "content hash"); kp_reach("decoded");
  size_t p = 0; std::vector<G> gs; flat(root, 0, gs); std::vector<uint32_t> ids; std::vector<Str> raw;
  for (auto &x : gs) {
    Rec r; if (!record(plain, p, r)) { kp_fail("assert", "group record"); return; }
    auto &gr = *x.g; for (int i = 1; i <= 9; i++) kp_check(r.have[i], "group field missing");
    kp_check(r.f[1].size() == 4 && r.f[7].size() == 4 && r.f[8].size() == 2 && r.f[9].size() == 4, "group field sizes"); if (r.f[1].size() != 4 || r.f[7].size() != 4 || r.f[8].size() != 2 || r.f[9].size() != 4) return;
    raw.push_back(r.f[1]); same(r.f[2], z(gr.name()), "group name"); same(r.f[3], pack(gr.creation_time()), "group creation time"); same(r.f[4], pack(gr.modification_time()), "group modification time"); same(r.f[5], pack(gr.access_time()), "group access time"); same(r.f[6], pack(gr.expiry_time()), "group expiry time");
    same(r.f[7], n32(gr.icon()), "group icon"); same(r.f[8], n16(x.level), "group level"); same(r.f[9], n32(gr.flags()), "group flags");
  }
  for (size_t i = 0; i < raw.size(); i++) for (size_t j = 0; j < i; j++) kp_check(raw[i] != raw[j], "group ids differ");
  size_t gi = 0; std::vector<std::pair<Str, std::shared_ptr<Entry>>> want; for (auto &x : gs) { for (auto &e : x.g->Entries()) want.push_back({raw[gi], e}); gi++; }
  // entries of a group keep their order; entries of different groups may come in any order
  std::vector<bool> used(want.size());
  for (size_t i = 0; i < want.size(); i++) {
    Rec r; if (!record(plain, p, r)) { kp_fail("assert", "entry record"); return; }
    size_t m = 0; while (m < want.size() && (used[m] || want[m].first != r.f[2])) m++;
    if (m == want.size()) { kp_fail("assert", "entry of an unknown group"); return; }
    used[m] = true; auto &e = *want[m].second; Str an, ad; if (!e.attachments().empty()) { an = e.attachments()[0]->name(); ad = *e.attachments()[0]->binary()->data(); }
    same(r.f[1], spec::str(e.uuid()), "entry id"); same(r.f[3], n32(e.icon()), "entry icon"); same(r.f[4], z(*e.title()), "title"); same(r.f[5], z(*e.url()), "URL"); same(r.f[6], z(*e.username()), "user name"); same(r.f[7], z(*e.password()), "password"); same(r.f[8], z(*e.notes()), "notes");
    same(r.f[9], pack(e.creation_time()), "entry creation time"); same(r.f[10], pack(e.modification_time()), "entry modification time"); same(r.f[11], pack(e.access_time()), "entry access time"); same(r.f[12], pack(e.expiry_time()), "entry expiry time"); if (an.empty()) kp_check(r.f[13].empty() || r.f[13] == z(an), "attachment name"); else same(r.f[13], z(an), "attachment name"); same(r.f[14], ad, "attachment data");
  }
  kp_check(p == plain.size(), "nothing after the last record");
  kp_reach("done");
}
