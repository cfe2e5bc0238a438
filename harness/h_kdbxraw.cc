// C05: whatever a KDBX file holds, import gives a well-formed database or a library exception.
// params: mode ...   0 arbitrary file   1 arbitrary header fields   2 arbitrary text of one element or attribute   3 elements missing, repeated, emptied or misplaced   4 arbitrary content behind the start bytes   5 one arbitrary byte anywhere in the XML
#include "kdbxspec.h"
#include "kdbx.hh"
using namespace keepass; using namespace kdbxspec;
static uint64_t P(int i) { return kp_param(i); }
static void use(const Str &s) { kp_use(s.data(), s.size()); }
template <class T> static void val(T v) { kp_use(&v, sizeof v); }
static size_t g_depth;
template <class T> static void times(const T &x) { val(x.creation_time()); val(x.modification_time()); val(x.access_time()); val(x.expiry_time()); val(x.move_time()); val(x.expires()); val(x.usage_count()); }
static void walk(const Entry &e) {
  kp_use(e.uuid().data(), 16); val(e.icon()); use(*e.title()); use(*e.url()); use(*e.username()); use(*e.password()); use(*e.notes()); use(e.fg_color()); use(e.bg_color()); use(e.override_url()); use(e.tags()); times(e);
  auto &t = const_cast<Entry &>(e).auto_type(); val(t.enabled()); val(t.obfuscation()); use(t.sequence()); for (auto &a : t.associations()) { use(a.window()); use(a.sequence()); }
  for (auto &f : e.custom_fields()) { use(f.key()); use(*f.value()); val(f.value().is_protected()); }
  for (auto &a : e.attachments()) { kp_check(!!a, "null attachment"); use(a->name()); if (a->binary()) { use(*a->binary()->data()); val(a->binary()->compress()); } }
  for (auto &h : e.history()) { kp_check(!!h, "null history entry"); walk(*h); }
  if (auto i = e.custom_icon().lock()) kp_use(i->data().data(), i->data().size());
}
static void walk(const Group &g) {
  kp_use(g.uuid().data(), 16); use(g.name()); use(g.notes()); val(g.icon()); times(g); val(g.expanded()); use(g.default_autotype_sequence()); val(g.autotype()); val(g.search());
  for (auto &e : g.Entries()) { kp_check(!!e, "null entry"); walk(*e); }
  for (auto &c : g.Groups()) { kp_check(!!c, "null group"); walk(*c); }
}
static void walk(const Metadata &m0) {
  Metadata &m = const_cast<Metadata &>(m0); use(m.generator()); use(m.database_name().value()); val(m.database_name().time()); use(m.database_desc().value()); val(m.database_desc().time()); use(m.default_username().value()); val(m.default_username().time());
  val(m.maintenance_hist_days()); use(m.database_color()); val(m.master_key_changed()); val(m.master_key_change_rec()); val(m.master_key_change_force()); auto &p = m.memory_protection(); val(p.title()); val(p.username()); val(p.password()); val(p.url()); val(p.notes());
  val(m.recycle_bin_changed()); val(m.entry_templates_changed()); val(m.history_max_items()); val(m.history_max_size());
  for (auto &i : m.icons()) { kp_check(!!i, "null icon"); kp_use(i->uuid().data(), 16); kp_use(i->data().data(), i->data().size()); }
  for (auto &b : m.binaries()) { kp_check(!!b, "null binary"); use(*b->data()); val(b->compress()); } for (auto &f : m.fields()) { use(f.key()); use(f.value()); }
}
static void import_and_check(const char *file, const Key &key) {
  std::unique_ptr<Database> db;
  try { KdbxFile f; db = f.Import(kp::path(file), key); }
  catch (const FormatError &) { kp_reach("format error"); return; }
  catch (const PasswordError &) { kp_reach("password error"); return; }
  catch (const IoError &) { kp_reach("io error"); return; }
  catch (const InternalError &) { kp_reach("internal error"); return; }
  kp_reach("imported");
  kp_check(!!db, "no database"); kp_check(db->root() && db->meta(), "no root group or metadata"); walk(*db->meta()); walk(*db->root());
  kp_use(db->init_vector().data(), 16); kp_use(db->transform_seed().data(), 32); kp_use(db->inner_random_stream_key().data(), 32); kp_use(db->master_seed().data(), db->master_seed().size()); val(db->transform_rounds()); val(db->compress());
}
static void leaves(El &e, std::vector<Str *> &v) { for (auto &a : e.attrs) v.push_back(&a.second); if (e.kids.empty()) v.push_back(&e.text); for (auto &k : e.kids) leaves(k, v); }
static void parents(El &e, std::vector<std::pair<El *, size_t>> &v) { for (size_t i = 0; i < e.kids.size(); i++) { v.push_back({&e, i}); parents(e.kids[i], v); } }
static size_t where(const Str &s, const Str &mark) {     // masked texts are symbolic: look at the fixed characters only
  for (size_t p = 0; p + mark.size() <= s.size(); p++) { size_t i = 0; while (i < mark.size() && !kp_is_symbolic((unsigned char)s[p + i]) && s[p + i] == mark[i]) i++; if (i == mark.size()) return p; }
  return Str::npos;
}
static Str doc(El &t, const Header &h) { Str s = document(t), q = hash64(h); size_t p = where(s, Str(44, 'H')); if (p != Str::npos) s.replace(p, 44, q); return s; }
static Str fieldx(int id, const Str &d) { return Str(1, (char)id) + n16(d.size()) + d; }
extern "C" void kp_main() {
  uint64_t mode = P(0);
  kp_crypto_mode(0);
  gen::KeySpec ks; ks.has_pass = true; ks.pass = "pw"; Key key = gen::mkkey(ks, 1);
  Header h = stdheader(false); Str xml, file;
  Database db; gen::Sel sel;
  if (mode >= 2) { gen::fixed_params(db, false); gen::lite(db, sel); h = header_of(db); }
  El t; if (mode >= 2) { t = tree(db); t.kids[0].kids[1].text = Str(44, 'H'); }
  if (mode == 0) {             // P(1) arbitrary bytes; P(2): with signature and version
    file = kp::bytes(P(1), "file"); if (P(2)) { Str v = h.sig0 + h.sig1 + n32(h.version); for (size_t i = 0; i < v.size() && i < file.size(); i++) file[i] = v[i]; }
    if (file.size() >= 14 && !P(3)) for (size_t i = 14; i < 15 && i < file.size(); i++) file[i] = 0;      // first field shorter than 256
  } else if (mode == 1) {      // a header with P(1) arbitrary fields in front of (P(2) = 0), in place of (1) or behind (2) the regular ones; sizes from a set; then P(3) body bytes
    static const unsigned sizes[] = {0, 1, 4, 8, 16, 32, 33}; Str extra;
    for (unsigned i = 0; i < P(1); i++) {
      unsigned sz = P(4) ? sizes[P(4) - 1] : sizes[kp_choose(7, "size")]; uint8_t id = kp::u8("id"); Str d = kp::bytes(sz, "data");
      if (sz >= 8) { unsigned big = 0; for (unsigned j = 1; j < 8; j++) big |= (unsigned char)d[j]; kp_assume(id != ROUNDS || (big == 0 && (unsigned char)d[0] < 2)); }
      extra += Str(1, (char)id) + n16(sz) + d;
    }
    Str hd = h.sig0 + h.sig1 + n32(P(5) ? kp::u32("version") : h.version), reg; for (auto &f : h.fields()) if (f.first != END) reg += fieldx(f.first, f.second);
    if (P(2) == 0) hd += extra + reg; else if (P(2) == 1) hd += extra; else hd += reg + extra;
    hd += fieldx(END, "\r\n\r\n"); file = hd + kp::bytes(P(3), "body");
  } else if (mode == 2) {      // leaf P(1): P(2) arbitrary bytes in place of its text (P(3) = 0) or of the part of it that begins at P(3) - 1; P(4): some of the following leaves; P(5), P(6): number of places, distance
    std::vector<Str *> v; leaves(t, v); size_t leaf = P(1) + (P(4) ? kp_choose(P(4), "leaf") : 0); if (leaf >= v.size()) { kp_debug("leaves", v.size()); kp_reach("no such leaf"); return; }
    Masker m(h.pkey); mask(t, m);
    Str &x = *v[leaf]; size_t off = P(3) ? P(3) - 1 + (P(5) ? P(6) * kp_choose(P(5), "offset") : 0) : 0, n = P(2); Str was = x, mark(n, '~');
    if (P(3)) { if (off + n > x.size()) { kp_reach("no such leaf"); return; } mark.assign(x.size(), '~'); x = mark; } else x = mark;
    if (x.empty()) xml = doc(t, h);
    else { size_t p = where(document(t), mark); xml = doc(t, h); if (P(3)) { xml.replace(p, mark.size(), was); p += off; } Str s = kp::bytes(n, "text"); for (size_t i = 0; i < n; i++) xml[p + i] = s[i]; }
    file = build(h, ks, xml);
  } else if (mode == 3) {      // element number P(1)..P(2)-1, operation
    std::vector<std::pair<El *, size_t>> v; parents(t, v); size_t lo = P(1), hi = P(2) < v.size() ? P(2) : v.size(); if (lo >= hi) { kp_debug("elements", v.size()); kp_reach("no such leaf"); return; }
    auto x = v[lo + kp_choose(hi - lo, "element")]; El &par = *x.first, c = par.kids[x.second];
    switch (kp_choose(6, "operation")) {
      case 0: par.kids.erase(par.kids.begin() + x.second); break;
      case 1: par.kids.insert(par.kids.begin() + x.second, c); break;
      case 2: par.kids[x.second].kids.clear(); par.kids[x.second].text = ""; break;
      case 3: par.kids[x.second].name += "X"; break;
      case 4: t.kids.push_back(c); break;
      case 5: par.kids[x.second].attrs.clear(); par.kids[x.second].kids.insert(par.kids[x.second].kids.begin(), c); break;
    }
    Masker m(h.pkey); mask(t, m); file = build(h, ks, doc(t, h));
  } else if (mode == 4) {      // P(1) arbitrary bytes behind the start bytes (P(2) = 1: behind a well-formed block); P(3): compressed
    h.comp = n32(P(3)); Str c = P(2) ? block(0, P(3) ? Str("\x1f\x8b", 2) : Str("<Kee")) : Str(); Str a = kp::bytes(P(1), "content");
    if (P(4)) { unsigned big = 0; for (size_t i = 38; i < 40 && i < a.size(); i++) big |= (unsigned char)a[i]; kp_assume(big == 0); }
    file = seal(h, ks, head(h), h.start + c + a);
  } else {                     // XML byte P(1) + P(2) * k, k < P(3), arbitrary; P(4) bytes
    Masker m(h.pkey); mask(t, m); xml = doc(t, h); size_t p = P(1) + P(2) * kp_choose(P(3), "position"), n = P(4) ? P(4) : 1; if (p + n > xml.size()) { kp_debug("xml size", xml.size()); kp_reach("no such leaf"); return; }
    Str s = kp::bytes(n, "byte"); for (size_t i = 0; i < n; i++) xml[p + i] = s[i];
    file = build(h, ks, xml);
  }
  kp::put("a.kdbx", file); import_and_check("a.kdbx", key); kp_reach("done");
}
