// C22: the JSON listing of groups and entries.
//  0 i n p       the tree of everything, text number i any n bytes (p: protected)
//  1 i tz        time stamp number i arbitrary
//  2 i max base  number i any of base..base+max-1
//  3 i n         binary content number i any n bytes
//  4 k n         an entry that may be a meta entry: part k of it (0 title, 1 URL, 2 user, 3 notes, 4 attachment name, 5 all chosen) with 2 arbitrary bytes at n, or (n >= 100) of n-100 arbitrary bytes, between others
//  5 n           structures: forks over groups, entries, empty texts, unset times, attachments
//  6 d           chains of d groups
#include "kdbxgen.h"
#include <ctime>
using namespace keepass; using gen::Str;
static uint64_t P(int i) { return kp_param(i); }
static int g_off;
struct V { char kind = 0; Str text; std::vector<std::pair<Str, V>> m; std::vector<V> a; };     // n number, s string, o object, a array
// ---- a strict parser
struct Parser {
  const Str &s; size_t p = 0; bool ok = true; explicit Parser(const Str &t) : s(t) {}
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) p++; }
  bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { p++; return true; } return false; }
  bool str(Str &o) {
    if (!eat('"')) return false;
    for (;;) {
      if (p >= s.size()) return false;
      unsigned char c = s[p++];
      if (c == '"') return true;
      if (c < 0x20) return false;
      if (c != '\\') { o += (char)c; continue; }
      if (p >= s.size()) return false;
      c = s[p++];
      switch (c) {
        case '"': case '\\': case '/': o += (char)c; break;
        case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u': {
          if (s.size() - p < 4) return false;
          unsigned v = 0, bad = 0; for (int i = 0; i < 4; i++) { unsigned char h = s[p++]; unsigned d = (unsigned)(h - '0'), x = (unsigned)((h | 32) - 'a'); unsigned isd = d < 10, isx = x < 6; bad |= !(isd | isx); v = v * 16 + (isd ? d : x + 10); }
          if (bad) return false;
          if (v > 0x7f) { if (v > 0x7ff) return false; o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 0x3f)); } else o += (char)v; break; }
        default: return false;
      }
    }
  }
  bool val(V &v) {
    ws(); if (p >= s.size()) return false;
    char c = s[p];
    if (c == '"') { v.kind = 's'; return str(v.text); }
    if (c == '{') { v.kind = 'o'; p++; if (eat('}')) return true; do { Str k; if (!str(k) || !eat(':')) return false; v.m.emplace_back(k, V()); if (!val(v.m.back().second)) return false; } while (eat(',')); return eat('}'); }
    if (c == '[') { v.kind = 'a'; p++; if (eat(']')) return true; do { v.a.emplace_back(); if (!val(v.a.back())) return false; } while (eat(',')); return eat(']'); }
    v.kind = 'n'; while (p < s.size() && s[p] >= '0' && s[p] <= '9') v.text += s[p++];
    return v.text.size() > 0 && !(v.text.size() > 1 && v.text[0] == '0');
  }
};
// ---- what has to be listed, taken before the call
static Str when(std::time_t t) { std::tm m = std::tm(); t += g_off; gmtime_r(&t, &m); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &m); return b; }
static void txt(V &o, const char *k, const Str &s) { if (s.empty()) return; V v; v.kind = 's'; v.text = s; o.m.emplace_back(k, v); }
struct Num { uint64_t n; };
static void num(V &o, const char *k, uint64_t n) { V v; v.kind = 'n'; v.text.assign((const char *)&n, 8); o.m.emplace_back(k, v); }     // compared by value
static void tim(V &o, const char *k, std::time_t t) { if (t != 0) txt(o, k, when(t)); }
static bool same(const Str &a, const char *b) { return a == b; }
static V listing(const Entry &e) {
  V o; o.kind = 'o'; num(o, "icon", e.icon()); txt(o, "title", *e.title()); txt(o, "url", *e.url()); txt(o, "username", *e.username()); txt(o, "password", *e.password()); txt(o, "notes", *e.notes());
  tim(o, "creation_time", e.creation_time()); tim(o, "modification_time", e.modification_time()); tim(o, "access_time", e.access_time()); tim(o, "expiry_time", e.expiry_time());
  for (auto &a : e.attachments()) { V x; x.kind = 'o'; txt(x, "name", a->name()); if (a->binary()) txt(x, "data", *a->binary()->data()); o.m.emplace_back("attachment", x); }
  return o;
}
static bool meta(const Entry &e) {
  bool b = false; for (auto &a : e.attachments()) b = b || same(a->name(), "bin-stream");
  return b && same(*e.title(), "Meta-Info") && same(*e.url(), "$") && same(*e.username(), "SYSTEM") && !e.notes()->empty();
}
static V listing(const Group &g) {
  V o; o.kind = 'o'; num(o, "icon", g.icon()); if (g.custom_icon().lock()) txt(o, "custom_icon", "1"); txt(o, "name", g.name()); txt(o, "notes", g.notes());
  tim(o, "creation_time", g.creation_time()); tim(o, "modification_time", g.modification_time()); tim(o, "access_time", g.access_time()); tim(o, "expiry_time", g.expiry_time()); tim(o, "move_time", g.move_time());
  if (g.flags()) num(o, "flags", g.flags());
  V gs, es; gs.kind = es.kind = 'a'; for (auto &x : g.Groups()) gs.a.push_back(listing(*x)); for (auto &x : g.Entries()) if (!meta(*x)) es.a.push_back(listing(*x));
  if (gs.a.size()) o.m.emplace_back("groups", gs); if (es.a.size()) o.m.emplace_back("entries", es);
  return o;
}
static bool known(const Str &k) { for (const Str &x : {Str("icon"), Str("title"), Str("url"), Str("username"), Str("password"), Str("notes"), Str("creation_time"), Str("modification_time"), Str("access_time"), Str("expiry_time"), Str("move_time"), Str("attachment"), Str("name"), Str("data"), Str("custom_icon"), Str("flags"), Str("groups"), Str("entries")}) if (x == k) return true; return false; }
static bool diff(const Str &a, const Str &b) { if (a.size() != b.size()) return true; unsigned d = 0; for (size_t i = 0; i < a.size(); i++) d |= (uint8_t)a[i] ^ (uint8_t)b[i]; return d != 0; }
// w: wanted, g: read from the text
static void match(const V &w, const V &g) {
  kp_check(w.kind == g.kind, "listed with another type"); if (w.kind != g.kind) return;
  if (w.kind == 'n') { uint64_t n, v = 0; memcpy(&n, w.text.data(), 8); for (char c : g.text) v = v * 10 + (uint64_t)(c - '0'); kp_check(v == n, "number is not listed as it is"); return; }
  if (w.kind == 's') { kp_check(!diff(w.text, g.text), "text is not listed as it is"); return; }
  if (w.kind == 'a') { kp_check(w.a.size() == g.a.size(), "number of listed groups or entries"); if (w.a.size() == g.a.size()) for (size_t i = 0; i < w.a.size(); i++) match(w.a[i], g.a[i]); return; }
  std::vector<bool> used(g.m.size());
  for (auto &x : w.m) {
    size_t i = 0; while (i < g.m.size() && (used[i] || g.m[i].first != x.first)) i++;
    kp_check(i < g.m.size(), "value is missing from the listing"); if (i == g.m.size()) return; used[i] = true; match(x.second, g.m[i].second);
  }
  for (size_t i = 0; i < g.m.size(); i++) kp_check(used[i] || !known(g.m[i].first), "value listed that is not there");
}
static void check(const Group &g) {
  V w = listing(g); Str s = g.ToJson(); Parser p(s); V v; bool ok = p.val(v); p.ws(); kp_check(ok && p.p == s.size(), "listing is not well-formed JSON"); if (!ok) return; kp_reach("parsed");
  match(w, v); kp_check(!diff(s, g.ToJson()), "second listing differs"); kp_reach("done");
}
static std::shared_ptr<Entry> metaEntry() {
  auto e = std::make_shared<Entry>(); e->set_title(gen::plain("Meta-Info")); e->set_url(gen::plain("$")); e->set_username(gen::plain("SYSTEM")); e->set_notes(gen::plain("KPX_GROUP_TREE_STATE"));
  e->AddAttachment(gen::att("bin-stream", std::make_shared<Binary>(gen::plain("x")))); return e;
}
static std::shared_ptr<Entry> other(const char *t) { auto e = std::make_shared<Entry>(); e->set_title(gen::plain(t)); e->set_password(gen::plain("p")); return e; }
static bool coin(const char *n) { return kp_choose(2, n) != 0; }
extern "C" void kp_main(void) {
  unsigned mode = P(0); gen::Sel s; s.spaces = true;
  g_off = mode == 1 && P(2) == 1 ? 3600 : mode == 1 && P(2) == 2 ? -5 * 3600 : 0; kp_tz(g_off, 0);
  if (mode < 4) {
    if (mode == 0) { s.text = P(1); s.n = P(2); s.prot = P(3); } else if (mode == 1) { s.time = P(1); s.margin = g_off != 0; } else if (mode == 2) { s.num = P(1); s.nmax = P(2); s.nbase = P(3); } else { s.data = P(1); s.n = P(2); }
    Database db; gen::rich(db, s); db.root()->Groups()[0]->set_flags(3); check(*db.root());
  } else if (mode == 4) {
    Group g; unsigned k = P(1); size_t n = P(2); auto e = metaEntry(); Str t = k == 0 ? "Meta-Info" : k == 1 ? "$" : k == 2 ? "SYSTEM" : k == 3 ? "x" : "bin-stream"; if (n >= 100) t = kp::bytes(n - 100, "text"); else for (size_t i = n; i < n + 2 && i < t.size(); i++) t[i] = (char)kp::u8("char"); auto pt = protect<Str>(t, false);
    if (k == 0) e->set_title(pt); else if (k == 1) e->set_url(pt); else if (k == 2) e->set_username(pt); else if (k == 3) e->set_notes(pt);
    else if (k == 4) { e = metaEntry(); auto f = std::make_shared<Entry>(); f->set_title(e->title()); f->set_url(e->url()); f->set_username(e->username()); f->set_notes(e->notes()); if (coin("first")) f->AddAttachment(gen::att("a", nullptr)); f->AddAttachment(gen::att(t, e->attachments()[0]->binary())); if (coin("last")) f->AddAttachment(gen::att("b", nullptr)); e = f; }
    else { if (coin("title")) e->set_title(gen::plain("Meta-info")); if (coin("url")) e->set_url(gen::plain("$$")); if (coin("user")) e->set_username(gen::plain("")); if (coin("notes")) e->set_notes(gen::plain("")); }
    if (coin("before")) g.AddEntry(coin("meta") ? metaEntry() : other("first")); g.AddEntry(e); if (coin("after")) g.AddEntry(coin("meta") ? metaEntry() : other("last")); check(g);
  } else if (mode == 5) {
    Group g; size_t n = P(1); unsigned id = 0; g.set_name(coin("named") ? "root" : "");
    for (size_t i = kp_choose(n + 1, "groups"); i; i--) { auto x = std::make_shared<Group>(); if (coin("name")) x->set_name(gen::nth("g", id++)); if (coin("time")) x->set_move_time(1000); if (coin("sub")) { auto y = std::make_shared<Group>(); y->set_flags(kp::u8("flags") & 7); x->AddGroup(y); if (coin("meta")) y->AddEntry(metaEntry()); if (coin("entry")) y->AddEntry(other("deep")); } g.AddGroup(x); }
    for (size_t i = kp_choose(n + 1, "entries"); i; i--) switch (kp_choose(5, "entry")) {
      case 0: g.AddEntry(other(gen::nth("e", id++).c_str())); break;
      case 1: g.AddEntry(metaEntry()); break;
      case 2: { auto e = std::make_shared<Entry>(); g.AddEntry(e); break; }
      case 3: { auto e = std::make_shared<Entry>(); for (size_t k = kp_choose(3, "attachments"); k; k--) e->AddAttachment(gen::att(coin("name") ? gen::nth("f", id++) : Str(), coin("binary") ? std::make_shared<Binary>(gen::plain(coin("data") ? "d\"\\" : "")) : nullptr)); g.AddEntry(e); break; }
      default: { auto e = other("h"); e->AddHistoryEntry(other("old")); e->set_access_time(5); g.AddEntry(e); }
    }
    check(g);
  } else {
    auto r = std::make_shared<Group>(), c = r; for (size_t i = 0; i < P(1); i++) { auto x = std::make_shared<Group>(); x->set_icon((uint32_t)i); c->AddGroup(x); if (i % 3 == 0) c->AddEntry(other("e")); c = x; }
    check(*r);
  }
}
