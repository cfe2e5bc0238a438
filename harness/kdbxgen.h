// A KDBX database in which every kind of object and reference occurs, with selected fields symbolic, and its comparison.
#pragma once
#include "dbgen.h"
namespace gen {
// Which fields are symbolic: `text`, `time`, `num`, `flags`, `id` select one field of that kind by index (-1: none).
struct Sel {
  int text = -1, time = -1, num = -1, flag = -1, id = -1, data = -1; size_t n = 0; bool prot = false; uint64_t nmax = 0, nbase = 0;
  int ntext = 0, ntime = 0, nnum = 0, nflag = 0, nid = 0, ndata = 0;
  // The library trims white space around unprotected texts (existing tests ask for it).
  bool spaces = false;      // white space at the ends of texts allowed
  Str T(const Str &d, bool trimmed = true) {
    if (ntext++ != text) return d;
    Str s = kp::text(n, "text");
    if (trimmed && n && !spaces) for (size_t i : {(size_t)0, n - 1}) kp_assume(s[i] != ' ' && s[i] != '\t' && s[i] != '\n' && s[i] != '\r');
    return s;
  }
  bool margin = false;      // local times defined
  int marktime = -1; std::time_t mark = 2000000000;      // one time stamp set to a given value
  std::time_t t(std::time_t d) {
    if (ntime == marktime) { ntime++; return mark; }
    if (ntime++ != time) return d;
    uint32_t v = kp::u32("time"); kp_assume(v < 4291747200u); if (margin) kp_assume(v == 0 || (v >= 86400 && v < 4291747200u - 86400)); return (std::time_t)v;
  }
  // numbers of a window of nmax values (the encoding of decimal digits of unbounded numbers is beyond the solver)
  uint32_t N(uint32_t d) { if (nnum++ != num) return d; if (!nmax) return kp::u32("num"); uint32_t v = nmax <= 256 ? kp::u8("num") : nmax <= 65536 ? kp::u16("num") : kp::u32("num"); kp_assume(v < nmax); return (uint32_t)nbase + v; }
  int64_t L(int64_t d) { if (nnum++ != num) return d; if (!nmax) return (int64_t)kp::u64("num64"); uint32_t v = nmax <= 256 ? kp::u8("num64") : nmax <= 65536 ? kp::u16("num64") : kp::u32("num64"); kp_assume(v < nmax); return (int64_t)(nbase + v); }
  bool B(bool d) { int i = nflag++; return i / 4 == flag ? kp::flag("flag") : d; }
  std::array<uint8_t, 16> id_(unsigned d) { std::array<uint8_t, 16> a; if (nid++ == id) { a = a16("id"); kp_assume(a[0] >= 0xd0); return a; } for (int i = 0; i < 16; i++) a[i] = (uint8_t)(d * 17 + i * 29 + (i ? 0 : 1)); a[0] = (uint8_t)d; return a; }
  Str D(const Str &d) { return ndata++ == data ? gen::data(n, "data") : d; }
  bool secrets = false; unsigned salt = 0;      // secrets: every protectable text is protected and unknown, of a length of 0..n
  protect<Str> P(const Str &d, bool p) { if (secrets) { ntext++; return protect<Str>(kp::text((salt += 7) % (n + 1), "secret"), true); } bool mine = ntext == text; if (mine) p = prot; return protect<Str>(T(d, !p), p); }
};
inline std::shared_ptr<Entry::Attachment> att(const Str &name, std::shared_ptr<Binary> b) { auto a = std::make_shared<Entry::Attachment>(); a->set_name(name); a->set_binary(b); return a; }
// size 0: root with one entry;  1: everything
inline void fill_entry(Sel &s, Entry &e, unsigned i, std::shared_ptr<Metadata> m, bool full) {
  Str k = Str(1, (char)('a' + i));
  e.set_uuid(s.id_(100 + i)); e.set_icon(s.N(3 + i)); e.set_title(s.P("title " + k, i & 1)); e.set_password(s.P("pass" + k, !(i & 2)));
  if (!full) return;
  e.set_url(s.P("http://" + k + "?x=1&y=2", i & 4)); e.set_username(s.P("user <" + k + ">", i & 2)); e.set_notes(s.P("line1\nline2 \"" + k + "\"", !(i & 1)));
  e.set_fg_color(s.T("#00000" + k)); e.set_bg_color(s.T("#11111" + k)); e.set_override_url(s.T("cmd://" + k)); e.set_tags(s.T("t1;" + k));
  e.set_creation_time(s.t(1000000 + i)); e.set_modification_time(s.t(1100000000 + i)); e.set_access_time(s.t(1200000000 + i)); e.set_expiry_time(s.t(1300000000 + i)); e.set_move_time(s.t(1400000000 + i));
  e.set_expires(s.B(i & 1)); e.set_usage_count(s.N(70 + i));
  e.auto_type().set_enabled(s.B(!(i & 1))); e.auto_type().set_obfuscation(s.N(i + 2)); e.auto_type().set_sequence(s.T("{USERNAME}" + k));
  for (unsigned j = 0; j < i % 3; j++) e.auto_type().AddAssociation(s.T("window" + k), s.T("seq" + k));
  for (unsigned j = 0; j < 2; j++) { Str key = s.T("custom" + k + (char)('0' + j)); e.AddCustomField(key, s.P("value" + k + (char)('0' + j), (i + j) & 1)); }
  if (i < m->icons().size()) e.set_custom_icon(m->icons()[i]);
  if (i < m->binaries().size()) e.AddAttachment(att(s.T("file" + k), m->binaries()[i]));
  if (i % 2 == 0) e.AddAttachment(att("inline" + k, std::make_shared<Binary>(protect<Str>(s.D(Str("in\0line", 7) + k), i & 2))));
  if (i < 2) e.AddAttachment(att("shared" + k, m->binaries()[2]));
}
inline void fill_group(Sel &s, Group &g, unsigned i, std::shared_ptr<Metadata> m) {
  Str k = Str(1, (char)('A' + i));
  g.set_uuid(s.id_(50 + i)); g.set_name(s.T("group " + k)); g.set_notes(s.T("notes & " + k)); g.set_icon(s.N(40 + i));
  g.set_creation_time(s.t(1000000000 + i)); g.set_modification_time(s.t(1100000100 + i)); g.set_access_time(s.t(1200000100 + i)); g.set_expiry_time(s.t(1300000100 + i)); g.set_move_time(s.t(1400000100 + i));
  g.set_expires(s.B(i & 1)); g.set_usage_count(s.N(9 + i)); g.set_expanded(s.B(!(i & 1))); g.set_default_autotype_sequence(s.T("{TAB}" + k)); g.set_autotype(s.B(i & 1)); g.set_search(s.B(!(i & 1)));
  if (i % 2 && m->icons().size() > 1) g.set_custom_icon(m->icons()[1]);
}
inline void fill_meta(Sel &s, Metadata &m) {
  m.set_generator(s.T("gen")); m.set_database_name(temporal<Str>(s.T("dbname"), s.t(1000000001))); m.set_database_desc(temporal<Str>(s.T("desc \xc3\xa4"), s.t(1000000002)));
  m.set_default_username(temporal<Str>(s.T("du"), s.t(1000000003))); m.set_maintenance_hist_days(s.N(364)); m.set_database_color(s.T("#ff0000")); m.set_master_key_changed(s.t(1000000004));
  m.set_master_key_change_rec(s.L(-2)); m.set_master_key_change_force(s.L(77));
  auto &p = m.memory_protection(); p.set_title(s.B(true)); p.set_username(s.B(true)); p.set_password(s.B(false)); p.set_url(s.B(true)); p.set_notes(s.B(true));
  m.set_recycle_bin_changed(s.t(1000000005)); m.set_entry_templates_changed(s.t(1000000006)); m.set_history_max_items((int32_t)s.N(11)); m.set_history_max_size(s.L(6 << 20));
  for (unsigned i = 0; i < 2; i++) { Str d = s.D(Str("PNG\0", 4) + (char)('0' + i)); m.AddIcon(std::make_shared<Icon>(s.id_(20 + i), std::vector<uint8_t>(d.begin(), d.end()))); }
  for (unsigned i = 0; i < 3; i++) { auto b = std::make_shared<Binary>(protect<Str>(s.D(Str("bin\0\xff", 5) + (char)('0' + i)), i == 1)); b->set_compress(i >= 1); m.AddBinary(b); }
  for (unsigned i = 0; i < 2; i++) { Str k = s.T("key" + Str(1, (char)('0' + i))); m.AddField(k, s.T("val" + Str(1, (char)('0' + i)))); }
}
// the complete database:  root(e0) -> A(e1 with history h0 h1, e2), B -> C(e3)
inline void rich(Database &db, Sel &s) {
  auto m = std::make_shared<Metadata>(); fill_meta(s, *m); db.set_meta(m);
  std::shared_ptr<Group> g[4]; std::shared_ptr<Entry> e[4];
  for (unsigned i = 0; i < 4; i++) { g[i] = std::make_shared<Group>(); fill_group(s, *g[i], i, m); e[i] = std::make_shared<Entry>(); fill_entry(s, *e[i], i, m, true); }
  for (unsigned i = 0; i < 2; i++) { auto h = std::make_shared<Entry>(); fill_entry(s, *h, 4 + i, m, true); e[1]->AddHistoryEntry(h); }
  g[0]->AddGroup(g[1]); g[0]->AddGroup(g[2]); g[2]->AddGroup(g[3]);
  g[0]->AddEntry(e[0]); g[1]->AddEntry(e[1]); g[1]->AddEntry(e[2]); g[3]->AddEntry(e[3]);
  db.set_root(g[0]); g[1]->set_last_visible_entry(e[2]); g[3]->set_last_visible_entry(e[3]);
  m->set_recycle_bin(g[2]); m->set_entry_templates(g[3]); m->set_last_selected_group(g[1]); m->set_last_visible_group(g[0]);
}
// a smaller one: root(e0) -> A, where e0 has a custom field, an association, both kinds of attachment and one history entry
inline void lite(Database &db, Sel &s) {
  auto m = std::make_shared<Metadata>(); m->set_generator("gen"); m->set_database_name(temporal<Str>(s.T("dbname"), s.t(1000000001))); m->set_master_key_changed(1000000004); m->set_maintenance_hist_days(365); m->set_history_max_items(10);
  m->AddIcon(std::make_shared<Icon>(s.id_(20), std::vector<uint8_t>{1, 2, 3, 4})); m->AddBinary(std::make_shared<Binary>(protect<Str>("bin0", true))); auto cb = std::make_shared<Binary>(protect<Str>("bin1", false)); cb->set_compress(true); m->AddBinary(cb); { Str k = "key", v = "value"; m->AddField(k, v); } db.set_meta(m);
  auto r = std::make_shared<Group>(), a = std::make_shared<Group>(); r->set_uuid(s.id_(50)); r->set_name(s.T("root")); r->set_creation_time(s.t(1000000000)); r->set_custom_icon(m->icons()[0]); a->set_uuid(s.id_(51)); a->set_name("A"); r->AddGroup(a);
  auto e = std::make_shared<Entry>(), h = std::make_shared<Entry>(); e->set_uuid(s.id_(100)); h->set_uuid(s.id_(101)); e->set_title(s.P("title", false)); e->set_password(s.P("secret", true)); h->set_password(s.P("old", true)); Str cf = "cf"; e->AddCustomField(cf, s.P("cv", false)); e->auto_type().AddAssociation("w", "s"); e->set_custom_icon(m->icons()[0]);
  e->AddAttachment(att("f0", m->binaries()[0])); e->AddAttachment(att("f1", std::make_shared<Binary>(protect<Str>("inl", false)))); e->AddHistoryEntry(h); e->set_expiry_time(s.t(1300000000)); r->AddEntry(e); r->set_last_visible_entry(e);
  db.set_root(r); m->set_recycle_bin(a); m->set_entry_templates(a); m->set_last_selected_group(a); m->set_last_visible_group(r);
}
// Structures: every choice is a fork, the contents are mostly fixed.  `which` selects what varies.
inline Str nth(const char *p, unsigned i) { Str s(p); do { s += (char)('0' + i % 10); i /= 10; } while (i); return s; }
inline std::shared_ptr<Entry> sentry(unsigned i) {
  auto e = std::make_shared<Entry>(); std::array<uint8_t, 16> u; for (int k = 0; k < 16; k++) u[k] = (uint8_t)(i * 7 + k * 3 + 1); u[0] = (uint8_t)i; u[1] = (uint8_t)(i >> 8); u[2] = 77; e->set_uuid(u);
  e->set_title(protect<Str>(nth("e", i), false)); e->set_password(protect<Str>(i == 1 ? kp::bytes(2, "secret") : nth("secret", i), true)); return e;
}
inline std::shared_ptr<Group> sgroup(unsigned i) {
  auto g = std::make_shared<Group>(); std::array<uint8_t, 16> u; for (int k = 0; k < 16; k++) u[k] = (uint8_t)(i * 5 + k * 11 + 3); u[0] = (uint8_t)i; u[1] = (uint8_t)(i >> 8); u[2] = 99; g->set_uuid(u); g->set_name(nth("g", i)); return g;
}
inline std::shared_ptr<Icon> sicon(unsigned i) { std::array<uint8_t, 16> u; for (int k = 0; k < 16; k++) u[k] = (uint8_t)(i * 13 + k + 5); u[2] = 55; return std::make_shared<Icon>(u, std::vector<uint8_t>{(uint8_t)(i & 1), 2, 3}); }
inline unsigned pick(uint64_t n, const char *name) { return (unsigned)kp_choose(n, name); }
inline void shape(Database &db, unsigned which, unsigned n) {
  auto m = std::make_shared<Metadata>(); db.set_meta(m); auto root = sgroup(1); db.set_root(root);
  if (which == 0) {             // 2 attachments; each: a binary of the pool (3 of them, two alike), a separate one of the same or other content, protected or not, or none
    Str x = kp::bytes(1, "bin");
    for (unsigned i = 0; i < 3; i++) m->AddBinary(std::make_shared<Binary>(protect<Str>(i < 2 ? Str("same") + x : Str(), n & 1 ? i == 1 : i == 0)));
    auto own = std::make_shared<Binary>(protect<Str>(Str("same") + x, false)); auto e = sentry(1), f = sentry(2);
    for (unsigned i = 0; i < 2; i++) {
      std::shared_ptr<Binary> b; unsigned c = pick(7, "attachment");
      if (c < 3) b = m->binaries()[c]; else if (c == 3) b = own; else if (c == 4) b = std::make_shared<Binary>(protect<Str>(Str("same") + x, true)); else if (c == 5) b = std::make_shared<Binary>(protect<Str>(Str(), n & 2));
      (i && pick(2, "other entry") ? f : e)->AddAttachment(att(n & 4 ? Str("name") : nth("n", i), b));
    }
    if (n & 8) { auto h = sentry(3); h->AddAttachment(att("old", m->binaries()[2])); e->AddHistoryEntry(h); }
    root->AddEntry(e); root->AddEntry(f);
  } else if (which == 1) {      // groups 1 > (2 > 3), 4: two of the four references of the metadata to any group or none
    std::shared_ptr<Group> g[4] = {root, sgroup(2), sgroup(3), sgroup(4)}; root->AddGroup(g[1]); g[1]->AddGroup(g[2]); root->AddGroup(g[3]);
    for (unsigned r = 0; r < 4; r++) if (n >> r & 1) {
      unsigned c = pick(5, "group"); if (c == 4) continue;
      if (r == 0) m->set_recycle_bin(g[c]); else if (r == 1) m->set_entry_templates(g[c]); else if (r == 2) m->set_last_selected_group(g[c]); else m->set_last_visible_group(g[c]);
    }
  } else if (which == 2) {      // last visible entries: any entry of the group or none; where the entries are
    std::shared_ptr<Group> g[3] = {root, sgroup(2), sgroup(3)}; root->AddGroup(g[1]); (n & 1 ? root : g[1])->AddGroup(g[2]);
    for (unsigned i = 0; i < 3; i++) g[pick(3, "where")]->AddEntry(sentry(i));
    for (auto &x : g) { unsigned c = pick(x->Entries().size() + 1, "visible"); if (c < x->Entries().size()) x->set_last_visible_entry(x->Entries()[c]); }
  } else if (which == 3) {      // how many there are of each
    unsigned a = pick(3, "associations"), f = pick(3, "fields"), h = pick(3, "history"), c = pick(3, "custom data"); auto e = sentry(1);
    for (unsigned i = 0; i < a; i++) e->auto_type().AddAssociation(n & 1 ? Str("same") : nth("w", i), n & 2 ? Str() : nth("s", i));
    for (unsigned i = 0; i < f; i++) { Str k = n & 1 ? Str("same") : nth("k", i); e->AddCustomField(k, protect<Str>(n & 2 ? Str() : nth("v", i), (i + n) & 1)); }
    for (unsigned i = 0; i < h; i++) { auto x = sentry(n & 4 ? 1 : 2 + i); x->set_title(protect<Str>(nth("old", i), false)); for (unsigned j = 0; j < i; j++) { Str k = "hk"; x->AddCustomField(k, protect<Str>("hv", true)); } e->AddHistoryEntry(x); }
    for (unsigned i = 0; i < c; i++) { Str k = n & 1 ? Str("same") : nth("k", i); m->AddField(k, n & 2 ? Str() : nth("v", i)); }
    root->AddEntry(e); if (n & 8) root->AddEntry(sentry(9));
  } else if (which == 4) {      // custom icons of groups, entries and history entries
    for (unsigned i = 0; i < 2 + (n & 1); i++) m->AddIcon(sicon(i));
    auto g = sgroup(2); root->AddGroup(g); auto e = sentry(1), f = sentry(2), h = sentry(3); g->AddEntry(e); root->AddEntry(f); e->AddHistoryEntry(h);
    auto ic = [&]() { unsigned c = pick(m->icons().size() + 1, "icon"); return c < m->icons().size() ? m->icons()[c] : nullptr; };
    if (auto i = ic()) root->set_custom_icon(i); if (auto i = ic()) g->set_custom_icon(i); if (auto i = ic()) e->set_custom_icon(i); if (auto i = ic()) f->set_custom_icon(i); if (auto i = ic()) h->set_custom_icon(i);
  } else if (which == 5) {      // histories of history entries: every tree of n entries below one
    std::vector<std::shared_ptr<Entry>> v{sentry(0)}; root->AddEntry(v[0]);
    for (unsigned i = 1; i <= n; i++) { auto x = sentry(i); v[pick(v.size(), "of")]->AddHistoryEntry(x); v.push_back(x); }
  } else if (which == 6) {      // every tree of n groups with an entry each
    std::vector<std::shared_ptr<Group>> v{root};
    for (unsigned i = 0; i < n; i++) { auto g = sgroup(2 + i); v[pick(v.size(), "parent")]->AddGroup(g); g->AddEntry(sentry(i)); v.push_back(g); }
  } else if (which == 7) {      // many: n groups in a row with an entry each, the last with n entries; n binaries, fields
    for (unsigned i = 0; i < n; i++) { auto g = sgroup(2 + i); root->AddGroup(g); g->AddEntry(sentry(i)); }
    auto e = sentry(20000);
    for (unsigned i = 0; i < n; i++) { root->AddEntry(sentry(1000 + i)); auto b = std::make_shared<Binary>(protect<Str>(nth("b", i), i & 1)); m->AddBinary(b); e->AddAttachment(att(nth("a", i), b)); Str k = nth("k", i); e->AddCustomField(k, protect<Str>(nth("v", i), i % 3 == 0)); }
    root->AddEntry(e);
  } else if (which == 8) {      // a chain of n groups, all references to the deepest
    auto cur = root; for (unsigned i = 0; i < n; i++) { auto g = sgroup(2 + i); cur->AddGroup(g); cur = g; }
    auto e = sentry(1); cur->AddEntry(e); cur->set_last_visible_entry(e); m->set_recycle_bin(cur); m->set_entry_templates(cur); m->set_last_selected_group(cur); m->set_last_visible_group(cur);
  } else {                      // nothing but defaults, and a group, entry, history entry that are never touched
    if (n & 1) root->AddGroup(std::make_shared<Group>());
    if (n & 2) { auto e = std::make_shared<Entry>(); root->AddEntry(e); if (n & 4) e->AddHistoryEntry(std::make_shared<Entry>()); }
    if (n & 8) m->AddBinary(std::make_shared<Binary>(protect<Str>(Str(), false)));
  }
}
// ---- comparison
inline void same(const protect<Str> &a, const protect<Str> &b, const char *label) { same(*a, *b, label); kp_check(a.is_protected() == b.is_protected(), "protected flag"); }
inline int index_of(const std::vector<std::shared_ptr<Icon>> &v, const std::shared_ptr<Icon> &p) { if (!p) return -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == p) return (int)i; return -2; }
inline int index_of(const std::vector<std::shared_ptr<Binary>> &v, const std::shared_ptr<Binary> &p) { if (!p) return -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == p) return (int)i; return -2; }
inline void cmp_entry(const Entry &a, const Metadata &am, const Entry &b, const Metadata &bm) {
  same(a.uuid(), b.uuid(), "entry id"); kp_check(a.icon() == b.icon(), "entry icon"); same(a.title(), b.title(), "title"); same(a.url(), b.url(), "URL"); same(a.username(), b.username(), "user name");
  same(a.password(), b.password(), "password"); same(a.notes(), b.notes(), "notes"); same(a.fg_color(), b.fg_color(), "foreground color"); same(a.bg_color(), b.bg_color(), "background color");
  same(a.override_url(), b.override_url(), "override URL"); same(a.tags(), b.tags(), "tags");
  kp_check(a.creation_time() == b.creation_time(), "entry creation time"); kp_check(a.modification_time() == b.modification_time(), "entry modification time"); kp_check(a.access_time() == b.access_time(), "entry access time");
  kp_check(a.expiry_time() == b.expiry_time(), "entry expiry time"); kp_check(a.move_time() == b.move_time(), "entry move time"); kp_check(a.expires() == b.expires(), "entry expires"); kp_check(a.usage_count() == b.usage_count(), "entry usage count");
  auto &x = const_cast<Entry &>(a).auto_type(); auto &y = const_cast<Entry &>(b).auto_type();
  kp_check(x.enabled() == y.enabled(), "auto-type enabled"); kp_check(x.obfuscation() == y.obfuscation(), "auto-type obfuscation"); same(x.sequence(), y.sequence(), "auto-type sequence");
  kp_check(x.associations().size() == y.associations().size(), "number of auto-type associations");
  for (size_t i = 0; i < x.associations().size() && i < y.associations().size(); i++) { same(x.associations()[i].window(), y.associations()[i].window(), "association window"); same(x.associations()[i].sequence(), y.associations()[i].sequence(), "association sequence"); }
  kp_check(a.custom_fields().size() == b.custom_fields().size(), "number of custom fields");
  for (size_t i = 0; i < a.custom_fields().size() && i < b.custom_fields().size(); i++) { same(a.custom_fields()[i].key(), b.custom_fields()[i].key(), "custom field key"); same(a.custom_fields()[i].value(), b.custom_fields()[i].value(), "custom field value"); }
  kp_check(index_of(am.icons(), a.custom_icon().lock()) == index_of(bm.icons(), b.custom_icon().lock()), "entry custom icon");
  kp_check(a.attachments().size() == b.attachments().size(), "number of attachments");
  for (size_t i = 0; i < a.attachments().size() && i < b.attachments().size(); i++) {
    auto p = a.attachments()[i], q = b.attachments()[i]; same(p->name(), q->name(), "attachment name");
    kp_check(index_of(am.binaries(), p->binary()) == index_of(bm.binaries(), q->binary()), "attachment reference"); kp_check(!!p->binary() == !!q->binary(), "attachment data present");
    if (p->binary() && q->binary()) same(p->binary()->data(), q->binary()->data(), "attachment data");
  }
  kp_check(a.history().size() == b.history().size(), "number of history entries");
  for (size_t i = 0; i < a.history().size() && i < b.history().size(); i++) cmp_entry(*a.history()[i], am, *b.history()[i], bm);
}
inline void cmp_group(const Group &a, const Metadata &am, const Group &b, const Metadata &bm) {
  same(a.uuid(), b.uuid(), "group id"); same(a.name(), b.name(), "group name"); same(a.notes(), b.notes(), "group notes"); kp_check(a.icon() == b.icon(), "group icon");
  kp_check(a.creation_time() == b.creation_time(), "group creation time"); kp_check(a.modification_time() == b.modification_time(), "group modification time"); kp_check(a.access_time() == b.access_time(), "group access time");
  kp_check(a.expiry_time() == b.expiry_time(), "group expiry time"); kp_check(a.move_time() == b.move_time(), "group move time"); kp_check(a.expires() == b.expires(), "group expires"); kp_check(a.usage_count() == b.usage_count(), "group usage count");
  kp_check(a.expanded() == b.expanded(), "group expanded"); same(a.default_autotype_sequence(), b.default_autotype_sequence(), "group auto-type sequence"); kp_check(a.autotype() == b.autotype(), "group auto-type"); kp_check(a.search() == b.search(), "group search");
  kp_check(index_of(am.icons(), a.custom_icon().lock()) == index_of(bm.icons(), b.custom_icon().lock()), "group custom icon");
  kp_check(a.Groups().size() == b.Groups().size(), "number of sub-groups"); kp_check(a.Entries().size() == b.Entries().size(), "number of entries");
  auto u = a.last_visible_entry().lock(), v = b.last_visible_entry().lock(); kp_check(!!u == !!v, "last visible entry present");
  for (size_t i = 0; i < a.Entries().size() && i < b.Entries().size(); i++) { cmp_entry(*a.Entries()[i], am, *b.Entries()[i], bm); kp_check((u == a.Entries()[i]) == (v == b.Entries()[i]), "last visible entry"); }
  for (size_t i = 0; i < a.Groups().size() && i < b.Groups().size(); i++) cmp_group(*a.Groups()[i], am, *b.Groups()[i], bm);
}
inline void paths(const std::shared_ptr<Group> &g, std::vector<std::shared_ptr<Group>> &v) { v.push_back(g); for (auto &c : g->Groups()) paths(c, v); }
inline int pos(const std::vector<std::shared_ptr<Group>> &v, const std::shared_ptr<Group> &g) { if (!g) return -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == g) return (int)i; return -2; }
inline void cmp_meta(const Database &da, const Database &db) {
  auto &a = *da.meta(); auto &b = *db.meta();
  same(a.generator(), b.generator(), "generator"); same(a.database_name().value(), b.database_name().value(), "database name"); kp_check(a.database_name().time() == b.database_name().time(), "database name changed");
  same(a.database_desc().value(), b.database_desc().value(), "database description"); kp_check(a.database_desc().time() == b.database_desc().time(), "database description changed");
  same(a.default_username().value(), b.default_username().value(), "default user name"); kp_check(a.default_username().time() == b.default_username().time(), "default user name changed");
  kp_check(a.maintenance_hist_days() == b.maintenance_hist_days(), "maintenance history days"); same(a.database_color(), b.database_color(), "database color"); kp_check(a.master_key_changed() == b.master_key_changed(), "master key changed");
  kp_check(a.master_key_change_rec() == b.master_key_change_rec(), "master key change rec"); kp_check(a.master_key_change_force() == b.master_key_change_force(), "master key change force");
  auto &p = const_cast<Metadata &>(a).memory_protection(); auto &q = const_cast<Metadata &>(b).memory_protection();
  kp_check(p.title() == q.title(), "protect title"); kp_check(p.username() == q.username(), "protect user name"); kp_check(p.password() == q.password(), "protect password"); kp_check(p.url() == q.url(), "protect URL"); kp_check(p.notes() == q.notes(), "protect notes");
  kp_check(a.recycle_bin_changed() == b.recycle_bin_changed(), "recycle bin changed"); kp_check(a.entry_templates_changed() == b.entry_templates_changed(), "entry templates changed");
  kp_check(a.history_max_items() == b.history_max_items(), "history max items"); kp_check(a.history_max_size() == b.history_max_size(), "history max size");
  kp_check(a.icons().size() == b.icons().size(), "number of icons"); kp_check(a.binaries().size() == b.binaries().size(), "number of binaries"); kp_check(a.fields().size() == b.fields().size(), "number of custom data items");
  for (size_t i = 0; i < a.icons().size() && i < b.icons().size(); i++) { same(a.icons()[i]->uuid(), b.icons()[i]->uuid(), "icon id"); same(a.icons()[i]->data(), b.icons()[i]->data(), "icon data"); }
  for (size_t i = 0; i < a.binaries().size() && i < b.binaries().size(); i++) { same(a.binaries()[i]->data(), b.binaries()[i]->data(), "binary data"); kp_check(a.binaries()[i]->data().is_protected() || a.binaries()[i]->compress() == b.binaries()[i]->compress(), "binary compression"); }
  for (size_t i = 0; i < a.fields().size() && i < b.fields().size(); i++) { same(a.fields()[i].key(), b.fields()[i].key(), "custom data key"); same(a.fields()[i].value(), b.fields()[i].value(), "custom data value"); }
  std::vector<std::shared_ptr<Group>> x, y; paths(da.root(), x); paths(db.root(), y);
  kp_check(pos(x, a.recycle_bin()) == pos(y, b.recycle_bin()), "recycle bin group"); kp_check(pos(x, a.entry_templates()) == pos(y, b.entry_templates()), "entry templates group");
  kp_check(pos(x, a.last_selected_group().lock()) == pos(y, b.last_selected_group().lock()), "last selected group"); kp_check(pos(x, a.last_visible_group().lock()) == pos(y, b.last_visible_group().lock()), "last visible group");
}
inline void cmp_params(const Database &a, const Database &b) {
  kp_check(a.cipher() == b.cipher(), "cipher"); same(a.master_seed(), b.master_seed(), "master seed"); same(a.init_vector(), b.init_vector(), "initialisation vector"); same(a.transform_seed(), b.transform_seed(), "transform seed");
  kp_check(a.transform_rounds() == b.transform_rounds(), "transform rounds"); kp_check(a.compress() == b.compress(), "compression"); same(a.inner_random_stream_key(), b.inner_random_stream_key(), "protected stream key");
}
inline void cmp_kdbx(const Database &a, const Database &b) {
  kp_check(a.root() && b.root() && a.meta() && b.meta(), "parts present"); cmp_params(a, b);
  if (!b.root() || !b.meta()) return;
  cmp_group(*a.root(), *a.meta(), *b.root(), *b.meta()); cmp_meta(a, b);
}
inline void fixed_params(Database &db, bool comp) {
  std::array<uint8_t, 16> iv; std::array<uint8_t, 32> ts, ik; std::vector<uint8_t> ms(32);
  for (int i = 0; i < 32; i++) { ts[i] = 3 * i + 1; ms[i] = 5 * i + 2; ik[i] = 13 * i + 3; if (i < 16) iv[i] = 11 * i; }
  db.set_master_seed(ms); db.set_init_vector(iv); db.set_transform_seed(ts); db.set_inner_random_stream_key(ik); db.set_transform_rounds(1); db.set_compress(comp); db.set_cipher(Database::Cipher::kAes);
}
}
