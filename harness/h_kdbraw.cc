// C04: whatever a KDB file holds, import gives a well-formed database or a library exception.
#include "kdbspec.h"
#include "kdb.hh"
using namespace keepass; using kdbspec::Str; using namespace kdbspec;
static uint64_t P(int i) { return kp_param(i); }
static size_t g_groups, g_entries;
static void use(const Str &s) { kp_use(s.data(), s.size()); }
static void use(std::time_t t) { kp_use(&t, sizeof t); }
static void walk(const Group &g, bool root) {
  if (!root) { use(g.name()); uint32_t i = g.icon(), f = g.flags(); kp_use(&i, 4); kp_use(&f, 4); use(g.creation_time()); use(g.modification_time()); use(g.access_time()); use(g.expiry_time()); kp_use(g.uuid().data(), 16); }
  for (auto &c : g.Groups()) { kp_check(!!c, "null group"); g_groups++; walk(*c, false); }
  for (auto &e : g.Entries()) {
    kp_check(!!e, "null entry"); g_entries++; kp_use(e->uuid().data(), 16); uint32_t i = e->icon(); kp_use(&i, 4);
    use(*e->title()); use(*e->url()); use(*e->username()); use(*e->password()); use(*e->notes());
    use(e->creation_time()); use(e->modification_time()); use(e->access_time()); use(e->expiry_time());
    for (auto &a : e->attachments()) { kp_check(!!a, "null attachment"); use(a->name()); if (a->binary()) use(*a->binary()->data()); }
  }
}
static void import_and_check(const char *file, const Key &key, const Header *h) {
  std::unique_ptr<Database> db;
  try { KdbFile f; db = f.Import(kp::path(file), key); }
  catch (const FormatError &) { kp_reach("format error"); return; }
  catch (const PasswordError &) { kp_reach("password error"); return; }
  catch (const IoError &) { kp_reach("io error"); return; }
  catch (const InternalError &) { kp_reach("internal error"); return; }
  kp_reach("imported");
  kp_check(!!db, "no database"); kp_check(!!db->root(), "no root group");
  kp_use(db->init_vector().data(), 16); kp_use(db->transform_seed().data(), 32); use(Str(db->master_seed().begin(), db->master_seed().end()));
  uint64_t r = db->transform_rounds(); kp_use(&r, 8);
  g_groups = g_entries = 0; walk(*db->root(), true);
  if (h) { kp_check(g_groups == h->ngroups, "number of groups"); kp_check(g_entries == h->nentries, "number of entries"); }
}
static Str group_rec(uint32_t id, uint16_t level) { return field(1, n32(id)) + field(2, Str("g\0", 2)) + field(8, n16(level)) + field(0xffff, ""); }
extern "C" void kp_main() {
  uint64_t mode = P(0);
  kp_crypto_mode(0);
  gen::KeySpec ks; ks.has_pass = true; ks.pass = "pw"; Key key = gen::mkkey(ks, 1);
  Header h = stdheader();
  if (mode == 0) {              // file of P(1) bytes, everything arbitrary except that key transformation is kept short
    Str f = kp::bytes(P(1), "file");
    if (P(2)) { Str v = h.sig0 + h.sig1 + n32(P(3)) + n32(0x00030004); for (size_t i = 0; i < v.size() && i < f.size(); i++) f[i] = v[i]; }
    for (size_t i = 120; i < 124 && i < f.size(); i++) f[i] = i == 120;
    if (P(1) > 124) for (size_t i = 48; i < 56; i++) f[i] = 0;      // record counts: modes 1 to 5
    kp::put("a.kdb", f); import_and_check("a.kdb", key, nullptr); kp_reach("done"); return;
  }
  Str content;
  if (mode == 1) {              // P(2) groups and P(3) entries announced, content: P(4) well-formed groups followed by P(1) arbitrary bytes
    h.ngroups = P(2); h.nentries = P(3);
    for (unsigned i = 0; i < P(4); i++) content += group_rec(i + 1, i);
    content += kp::bytes(P(1), "content");
  } else if (mode == 2) {       // a group or entry (P(1)) of P(2) fields with arbitrary type, size up to P(3), arbitrary data
    h.ngroups = 1; h.nentries = P(1);
    if (P(1)) content += group_rec(1, 0) + field(2, n32(1));
    for (unsigned i = 0; i < P(2); i++) {
      uint16_t ty = i < P(4) ? P(5 + i) : kp::u16("type");
      size_t sz = kp_choose(P(3) + 1, "size");
      content += field(ty, kp::bytes(sz, "data"));
    }
    content += field(0xffff, "");
  } else if (mode == 3) {     // P(4): ids from a set of three       // P(1) groups with arbitrary ids and levels, P(2) entries in arbitrary groups, P(3): arbitrary counts in the header
    static const uint16_t lvls[6] = {0, 1, 2, 3, 0xfffe, 0xffff}; static const uint32_t ids[3] = {0, 1, 0xffffffffu};
    for (unsigned i = 0; i < P(1); i++) { content += field(1, n32(P(4) ? ids[kp_choose(3, "id")] : kp::u32("id"))) + field(2, Str(1, 0)) + field(8, n16(P(4) ? lvls[kp_choose(6, "level")] : kp::u16("level"))) + field(0xffff, ""); }
    for (unsigned i = 0; i < P(2); i++) content += field(1, kp::bytes(16, "uuid")) + field(2, n32(P(4) ? ids[kp_choose(3, "group")] : kp::u32("group"))) + field(4, Str("t\0", 2)) + field(0xffff, "");
    h.ngroups = P(1); h.nentries = P(2);
    if (P(3)) { h.ngroups = kp::u32("ngroups"); h.nentries = kp::u32("nentries"); }
  } else if (mode == 4) {       // the time stamp fields: P(1) 0 group, 1 entry; P(2) which
    h.ngroups = 1; h.nentries = P(1);
    if (P(1)) content += group_rec(1, 0) + field(2, n32(1));
    content += field((P(1) ? 9 : 3) + P(2), kp::bytes(5, "time")) + field(0xffff, "");
  } else if (mode == 5) {       // a field whose announced size is arbitrary
    h.ngroups = 1; h.nentries = P(1);
    if (P(1)) content += group_rec(1, 0) + field(2, n32(1));
    content += n16(P(2)) + n32(kp::u32("size")) + kp::bytes(P(3), "data") + field(0xffff, "");
  }
  kp::put("a.kdb", build(h, ks, content));
  import_and_check("a.kdb", key, &h);
  kp_reach("done");
}
