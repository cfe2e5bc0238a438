// C14: equality of entries and groups against a field-by-field definition.
//  0 f        entries: every field of both sides arbitrary, texts of 1 character, text number f of 0..2 characters on either side
//  1 kind max entries: kind of sub-object (0 attachments, 1 associations, 2 custom fields, 3 history), 0..max on each side
//  2 f        groups: every field arbitrary, text number f of 0..2 characters
//  3 kind max groups: sub-groups, entries
//  4 what lo hi   two copies of a tree of everything, the field number lo..hi-1 of one kind arbitrary on both sides
#include "kdbxgen.h"
using namespace keepass; using gen::Str;
static uint64_t P(int i) { return kp_param(i); }
static bool eq(const Str &a, const Str &b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); i++) d |= (uint8_t)a[i] ^ (uint8_t)b[i]; return d == 0; }
template <size_t N> static unsigned dif(const std::array<uint8_t, N> &a, const std::array<uint8_t, N> &b) { unsigned d = 0; for (size_t i = 0; i < N; i++) d |= a[i] ^ b[i]; return d; }
// 0: equal
static uint64_t ds(const Str &a, const Str &b) { if (a.size() != b.size()) return 1; uint64_t d = 0; for (size_t i = 0; i < a.size(); i++) d |= (uint8_t)a[i] ^ (uint8_t)b[i]; return d; }
static uint64_t dp(const protect<Str> &a, const protect<Str> &b) { return ds(*a, *b) | (uint64_t)(a.is_protected() ^ b.is_protected()); }
static uint64_t dn(uint64_t a, uint64_t b) { return a ^ b; }
static uint64_t de(const Entry &a, const Entry &b) {
  uint64_t d = dif(a.uuid(), b.uuid()) | dn(a.icon(), b.icon()) | dp(a.title(), b.title()) | dp(a.url(), b.url()) | dp(a.username(), b.username()) | dp(a.password(), b.password()) | dp(a.notes(), b.notes());
  d |= ds(a.override_url(), b.override_url()) | ds(a.tags(), b.tags()) | ds(a.fg_color(), b.fg_color()) | ds(a.bg_color(), b.bg_color()) | dn(a.creation_time(), b.creation_time()) | dn(a.modification_time(), b.modification_time());
  d |= dn(a.access_time(), b.access_time()) | dn(a.expiry_time(), b.expiry_time()) | dn(a.move_time(), b.move_time()) | dn(a.expires(), b.expires()) | dn(a.usage_count(), b.usage_count()); d |= a.custom_icon().lock() != b.custom_icon().lock();
  auto &x = const_cast<Entry &>(a).auto_type(); auto &y = const_cast<Entry &>(b).auto_type(); d |= dn(x.enabled(), y.enabled()) | dn(x.obfuscation(), y.obfuscation()) | ds(x.sequence(), y.sequence());
  d |= x.associations().size() != y.associations().size() || a.attachments().size() != b.attachments().size() || a.history().size() != b.history().size() || a.custom_fields().size() != b.custom_fields().size();
  for (size_t i = 0; i < std::min(x.associations().size(), y.associations().size()); i++) d |= ds(x.associations()[i].window(), y.associations()[i].window()) | ds(x.associations()[i].sequence(), y.associations()[i].sequence());
  for (size_t i = 0; i < std::min(a.attachments().size(), b.attachments().size()); i++) { auto p = a.attachments()[i], q = b.attachments()[i]; d |= ds(p->name(), q->name()); d |= !!p->binary() != !!q->binary(); if (p->binary() && q->binary()) d |= dp(p->binary()->data(), q->binary()->data()); }
  for (size_t i = 0; i < std::min(a.custom_fields().size(), b.custom_fields().size()); i++) d |= ds(a.custom_fields()[i].key(), b.custom_fields()[i].key()) | dp(a.custom_fields()[i].value(), b.custom_fields()[i].value());
  for (size_t i = 0; i < std::min(a.history().size(), b.history().size()); i++) d |= de(*a.history()[i], *b.history()[i]);
  return d;
}
static uint64_t dg(const Group &a, const Group &b) {
  uint64_t d = dif(a.uuid(), b.uuid()) | dn(a.icon(), b.icon()) | ds(a.name(), b.name()) | ds(a.notes(), b.notes()) | dn(a.creation_time(), b.creation_time()) | dn(a.modification_time(), b.modification_time()) | dn(a.access_time(), b.access_time());
  d |= dn(a.expiry_time(), b.expiry_time()) | dn(a.move_time(), b.move_time()) | dn(a.flags(), b.flags()) | dn(a.expires(), b.expires()) | dn(a.expanded(), b.expanded()) | dn(a.usage_count(), b.usage_count()) | ds(a.default_autotype_sequence(), b.default_autotype_sequence());
  d |= dn(a.autotype(), b.autotype()) | dn(a.search(), b.search()); d |= a.custom_icon().lock() != b.custom_icon().lock() || a.last_visible_entry().lock() != b.last_visible_entry().lock();
  d |= a.Groups().size() != b.Groups().size() || a.Entries().size() != b.Entries().size();
  for (size_t i = 0; i < std::min(a.Entries().size(), b.Entries().size()); i++) d |= de(*a.Entries()[i], *b.Entries()[i]);
  for (size_t i = 0; i < std::min(a.Groups().size(), b.Groups().size()); i++) d |= dg(*a.Groups()[i], *b.Groups()[i]);
  return d;
}
template <class T> static void verdict(const T &a, const T &b, uint64_t d) {
  bool e = a == b, r = b == a, n = a != b, m = b != a;
  kp_check(e == (d == 0), "equality differs from that of the fields"); kp_check(r == e, "equality depends on the side"); kp_check(n == !e && m == !e, "== and != contradict"); kp_check(a == a && !(b != b), "not equal to itself");
  kp_reach(e ? "equal" : "different");
}
static int g_text, g_field = -1;
static Str tx() { return kp::bytes(g_text++ == g_field ? kp_choose(3, "length") : 1, "text"); }
static protect<Str> pt() { Str s = tx(); return protect<Str>(s, kp::flag("protected")); }
static std::array<uint8_t, 16> uid() { std::array<uint8_t, 16> a; a.fill(7); a[0] = kp::u8("id"); a[15] = kp::u8("id"); return a; }
static std::shared_ptr<Icon> g_icon[2];
static std::shared_ptr<Icon> icon() { uint64_t i = kp_choose(3, "icon"); return i == 2 ? nullptr : g_icon[i]; }
static void base(Entry &e) { std::array<uint8_t, 16> a; a.fill(7); e.set_uuid(a); e.set_title(gen::plain("t")); }
static void base(Group &g) { std::array<uint8_t, 16> a; a.fill(8); g.set_uuid(a); g.set_name("g"); }
static void fill(Entry &e) {
  g_text = 0; e.set_uuid(uid()); e.set_icon(kp::u32("icon")); e.set_custom_icon(icon()); e.set_title(pt()); e.set_url(pt()); e.set_override_url(tx()); e.set_username(pt()); e.set_password(pt()); e.set_notes(pt()); e.set_tags(tx());
  e.set_creation_time(kp::u64("time")); e.set_modification_time(kp::u64("time")); e.set_access_time(kp::u64("time")); e.set_expiry_time(kp::u64("time")); e.set_move_time(kp::u64("time")); e.set_expires(kp::flag("expires")); e.set_usage_count(kp::u32("usage"));
  e.set_bg_color(tx()); e.set_fg_color(tx()); e.auto_type().set_enabled(kp::flag("enabled")); e.auto_type().set_obfuscation(kp::u32("obfuscation")); e.auto_type().set_sequence(tx());
}
static void fill(Group &g, const std::shared_ptr<Entry> *le) {
  g_text = 0; g.set_uuid(uid()); g.set_icon(kp::u32("icon")); g.set_custom_icon(icon()); g.set_name(tx()); g.set_notes(tx()); g.set_creation_time(kp::u64("time")); g.set_modification_time(kp::u64("time")); g.set_access_time(kp::u64("time"));
  g.set_expiry_time(kp::u64("time")); g.set_move_time(kp::u64("time")); g.set_flags(kp::u16("flags")); g.set_expires(kp::flag("expires")); g.set_expanded(kp::flag("expanded")); g.set_usage_count(kp::u32("usage")); g.set_default_autotype_sequence(tx());
  g.set_autotype(kp::flag("autotype")); g.set_search(kp::flag("search")); uint64_t i = kp_choose(3, "last"); if (i < 2) g.set_last_visible_entry(le[i]);
}
static Str one() { return kp::bytes(1, "text"); }
static void subs(Entry &e, unsigned kind, size_t max) {
  base(e); size_t n = kp_choose(max + 1, "count");
  for (size_t i = 0; i < n; i++) switch (kind) {
    case 0: { auto b = kp_choose(3, "binary"); e.AddAttachment(gen::att(one(), b == 0 ? nullptr : std::make_shared<Binary>(protect<Str>(b == 1 ? Str() : one(), kp::flag("protected"))))); break; }
    case 1: { Str w = one(); e.auto_type().AddAssociation(w, one()); break; }
    case 2: { Str k = one(); e.AddCustomField(k, protect<Str>(one(), kp::flag("protected"))); break; }
    default: { auto h = std::make_shared<Entry>(); base(*h); h->set_title(protect<Str>(one(), kp::flag("protected"))); if (kp_choose(2, "attachment")) h->AddAttachment(gen::att(one(), nullptr)); e.AddHistoryEntry(h); }
  }
}
static void subs(Group &g, unsigned kind, size_t max) {
  base(g); size_t n = kp_choose(max + 1, "count");
  for (size_t i = 0; i < n; i++)
    if (kind == 0) { auto s = std::make_shared<Group>(); base(*s); s->set_name(one()); if (kp_choose(2, "entry")) { auto h = std::make_shared<Entry>(); base(*h); h->set_icon(kp::u32("icon")); s->AddEntry(h); } g.AddGroup(s); }
    else { auto h = std::make_shared<Entry>(); base(*h); h->set_title(protect<Str>(one(), kp::flag("protected"))); if (kp_choose(2, "field")) { Str k = one(); h->AddCustomField(k, protect<Str>("v", false)); } g.AddEntry(h); }
}
static std::shared_ptr<Group> tree(gen::Sel s, std::shared_ptr<Metadata> m, bool entry0) {
  std::shared_ptr<Group> g[4]; std::shared_ptr<Entry> e[4]; (void)entry0;
  for (unsigned i = 0; i < 4; i++) { g[i] = std::make_shared<Group>(); gen::fill_group(s, *g[i], i, m); e[i] = std::make_shared<Entry>(); gen::fill_entry(s, *e[i], i, m, true); }
  for (unsigned i = 0; i < 2; i++) { auto h = std::make_shared<Entry>(); gen::fill_entry(s, *h, 4 + i, m, true); e[1]->AddHistoryEntry(h); }
  g[0]->AddGroup(g[1]); g[0]->AddGroup(g[2]); g[2]->AddGroup(g[3]); g[0]->AddEntry(e[0]); g[1]->AddEntry(e[1]); g[1]->AddEntry(e[2]); g[3]->AddEntry(e[3]); return g[0];
}
extern "C" void kp_main() {
  for (int i = 0; i < 2; i++) { std::array<uint8_t, 16> u; u.fill(i); g_icon[i] = std::make_shared<Icon>(u, std::vector<uint8_t>{(uint8_t)i}); }
  switch (P(0)) {
    case 0: { g_field = (int)P(1); Entry a, b; fill(a); fill(b); verdict(a, b, de(a, b)); break; }
    case 1: { Entry a, b; subs(a, P(1), P(2)); subs(b, P(1), P(2)); verdict(a, b, de(a, b)); break; }
    case 2: { g_field = (int)P(1); std::shared_ptr<Entry> le[2] = {std::make_shared<Entry>(), std::make_shared<Entry>()}; base(*le[0]); base(*le[1]); Group a, b; fill(a, le); fill(b, le); verdict(a, b, dg(a, b)); break; }
    case 3: { Group a, b; subs(a, P(1), P(2)); subs(b, P(1), P(2)); verdict(a, b, dg(a, b)); break; }
    default: {
      gen::Sel x; auto m = std::make_shared<Metadata>(); gen::fill_meta(x, *m); x = gen::Sel(); int i = (int)(P(2) + kp_choose(P(3) - P(2), "field")); x.n = 1; x.prot = kp::flag("protected");
      switch (P(1)) { case 0: x.text = i; break; case 1: x.time = i; break; case 2: x.num = i; break; case 3: x.flag = i; break; case 4: x.id = i; break; default: x.data = i; }
      gen::Sel y = x; y.prot = kp::flag("protected"); auto a = tree(x, m, false), b = tree(y, m, false); verdict(*a, *b, dg(*a, *b));
    }
  }
}
