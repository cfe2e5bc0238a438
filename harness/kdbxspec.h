// Independent KDBX 3.1 codec, written from the format description (not from the library): container, block stream,
// protected stream, XML reader and writer, mapping between XML and database.
#pragma once
#include "kdbspec.h"
#include "kdbxgen.h"
#include <ctime>
#include <zlib.h>
namespace kdbxspec {
using namespace keepass;
typedef std::string Str;
using kdbspec::n16; using kdbspec::n32; using kdbspec::g32;
inline Str n64(uint64_t v) { return n32((uint32_t)v) + n32((uint32_t)(v >> 32)); }
inline const Str &aes_id() { static const Str s("\x31\xc1\xf2\xe6\xbf\x71\x43\x50\xbe\x58\x05\x21\x6a\xfc\x5a\xff", 16); return s; }
// How a program may write the same document: 1: header fields in another order; 2: child elements of different names in another order; 4: comments, CDATA and
// character references; 8: unknown elements and attributes; 16: empty elements left out; 32: no line breaks, single quotes; 64: unknown elements with protected texts
inline unsigned &style() { static unsigned v = 0; return v; }
enum { END = 0, CIPHER = 2, COMP = 3, MSEED = 4, TSEED = 5, ROUNDS = 6, IV = 7, PKEY = 8, START = 9, PSTREAM = 10 };
struct Header {
  Str sig0 = n32(0x9aa2d903), sig1 = n32(0xb54bfb67); uint32_t version = 0x00030001;
  Str cipher = aes_id(), comp = n32(0), mseed, tseed, iv, pkey, start, pstream = n32(2); uint64_t rounds = 1;
  std::vector<std::pair<int, Str>> fields() const {
    if (style() & 1) return {{PSTREAM, pstream}, {START, start}, {PKEY, pkey}, {IV, iv}, {ROUNDS, n64(rounds)}, {TSEED, tseed}, {MSEED, mseed}, {COMP, comp}, {CIPHER, cipher}, {END, Str()}};
    return {{CIPHER, cipher}, {COMP, comp}, {MSEED, mseed}, {TSEED, tseed}, {ROUNDS, n64(rounds)}, {IV, iv}, {PKEY, pkey}, {START, start}, {PSTREAM, pstream}, {END, Str("\r\n\r\n")}};
  }
};
inline Header stdheader(bool comp) {
  Header h; h.comp = n32(comp);
  for (int i = 0; i < 32; i++) { h.mseed += (char)(5 * i + 2); h.tseed += (char)(3 * i + 1); h.pkey += (char)(13 * i + 3); h.start += (char)(9 * i + 4); if (i < 16) h.iv += (char)(11 * i); }
  return h;
}
inline Str head(const Header &h) { Str s = h.sig0 + h.sig1 + n32(h.version); for (auto &f : h.fields()) s += Str(1, (char)f.first) + n16(f.second.size()) + f.second; return s; }
inline Str finalkey(const Header &h, const gen::KeySpec &k) { return spec::sha256(h.mseed + kdbspec::transform(kdbspec::kdbx_composite(k), h.tseed, h.rounds)); }
// ---- hashed block stream
inline Str block(uint32_t i, const Str &d) { return n32(i) + spec::sha256(d) + n32(d.size()) + d; }
inline Str endblock(uint32_t i) { return n32(i) + Str(32, 0) + n32(0); }
inline Str blocks(const Str &d, size_t bs = 1 << 20) { Str r; uint32_t i = 0; for (size_t p = 0; p < d.size(); p += bs) r += block(i++, d.substr(p, bs)); return r + endblock(i); }
inline bool unblocks(const Str &s, Str &out) {
  size_t p = 0; uint32_t i = 0; out.clear();
  for (;;) {
    if (s.size() - p < 40 || s.size() < p || g32(s, p) != i++) return false;
    uint32_t n = g32(s, p + 36); Str h = s.substr(p + 4, 32); p += 40;
    if (!n) { bool z = true; for (char c : h) z &= !c; return z && p == s.size(); }
    if (s.size() - p < n) return false;
    Str d = s.substr(p, n); if (spec::sha256(d) != h) return false;
    out += d; p += n;
  }
}
// ---- gzip through zlib
inline Str gz(const Str &d) {
  z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, Z_DEFAULT_COMPRESSION, Z_DEFLATED, 16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY);
  Str r(d.size() * 2 + 1000, 0); z.next_in = (Bytef *)d.data(); z.avail_in = d.size(); z.next_out = (Bytef *)&r[0]; z.avail_out = r.size();
  deflate(&z, Z_FINISH); r.resize(r.size() - z.avail_out); deflateEnd(&z); return r;
}
inline bool ungz(const Str &d, Str &out) {
  z_stream z; memset(&z, 0, sizeof z); inflateInit2(&z, 16 + MAX_WBITS); out.clear();
  Str r(d.size() * 2 + 1000, 0); z.next_in = (Bytef *)d.data(); z.avail_in = d.size(); int e;
  do { z.next_out = (Bytef *)&r[0]; z.avail_out = r.size(); e = inflate(&z, Z_NO_FLUSH); out.append(r.data(), r.size() - z.avail_out); } while (e == Z_OK && z.avail_out == 0);
  bool ok = e == Z_STREAM_END && !z.avail_in; inflateEnd(&z); return ok;
}
// ---- container
inline Str hash64(const Header &h) { return spec::b64enc(spec::sha256(head(h))); }
inline Str seal(const Header &h, const gen::KeySpec &k, const Str &hd, const Str &plain) { return hd + spec::cbc_enc(spec::AesBlock(finalkey(h, k)), h.iv, plain); }
inline Str build(const Header &h, const gen::KeySpec &k, const Str &xml, size_t bs = 1 << 20) {
  return seal(h, k, head(h), h.start + blocks(h.comp[0] ? gz(xml) : xml, bs));
}
// reads a file written by somebody else; the header hash it was computed over is returned in `hash`
inline bool open(const Str &f, const gen::KeySpec &k, Header &h, Str &xml, Str &hash) {
  if (f.size() < 12) return false;
  if (f.substr(0, 4) != h.sig0 || f.substr(4, 4) != h.sig1 || g32(f, 8) >> 16 != 3) return false;
  size_t p = 12; h.cipher = h.comp = h.mseed = h.tseed = h.iv = h.pkey = h.start = h.pstream = ""; Str rounds;
  for (;;) {
    if (f.size() < p + 3) return false;
    unsigned id = (uint8_t)f[p], n = (uint8_t)f[p + 1] | (uint8_t)f[p + 2] << 8; p += 3;
    if (f.size() < p + n) return false;
    Str d = f.substr(p, n); p += n;
    if (id == END) break;
    switch (id) { case CIPHER: h.cipher = d; break; case COMP: h.comp = d; break; case MSEED: h.mseed = d; break; case TSEED: h.tseed = d; break; case ROUNDS: rounds = d; break;
      case IV: h.iv = d; break; case PKEY: h.pkey = d; break; case START: h.start = d; break; case PSTREAM: h.pstream = d; break; default: return false; }
  }
  if (h.cipher != aes_id() || h.comp.size() != 4 || h.tseed.size() != 32 || rounds.size() != 8 || h.iv.size() != 16 || h.pkey.size() != 32 || h.start.size() != 32 || h.pstream != n32(2)) return false;
  h.rounds = g32(rounds, 0) | (uint64_t)g32(rounds, 4) << 32; hash = spec::sha256(f.substr(0, p));
  Str plain, body;
  if (!spec::cbc_dec(spec::AesBlock(finalkey(h, k)), h.iv, f.substr(p), plain) || plain.size() < 32) return false;
  for (int i = 0; i < 32; i++) kp_check(plain[i] == h.start[i], "stream start bytes");
  if (!unblocks(plain.substr(32), body)) return false;
  if (g32(h.comp, 0) == 0) { xml = body; return true; }
  return g32(h.comp, 0) == 1 && ungz(body, xml);
}
// ---- XML
struct El {
  Str name, text; std::vector<std::pair<Str, Str>> attrs; std::vector<El> kids;
  El(const Str &n = "", const Str &t = "") : name(n), text(t) {}
  const El *kid(const Str &n) const { for (auto &k : kids) if (k.name == n) return &k; return nullptr; }
  Str get(const Str &n) const { auto k = kid(n); return k ? k->text : Str(); }
  Str attr(const Str &n) const { for (auto &a : attrs) if (a.first == n) return a.second; return ""; }
  El &add(const Str &n, const Str &t = "") { kids.emplace_back(n, t); return kids.back(); }
};
inline Str esc(const Str &s) {
  Str r; for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else if ((unsigned char)c < 32) { unsigned v = (unsigned char)c; r += "&#x"; r += "01"[v >> 4]; r += "0123456789ABCDEF"[v & 15]; r += ';'; } else r += c; }
  return r;
}
inline bool concrete(const Str &s) { return !kp_any_symbolic(s.data(), s.size()); }
inline Str styled(const Str &t) {
  if ((style() & 4) && !t.empty() && concrete(t)) {
    if (t.size() % 3 == 1) return "<![CDATA[" + t + "]]>";
    if (t.size() % 3 == 2 && t[0] > 32 && t[0] < 127) { unsigned v = (unsigned)t[0]; return Str("&#") + (v > 99 ? "1" : "") + (char)('0' + v / 10 % 10) + (char)('0' + v % 10) + ";" + esc(t.substr(1)); }
    if (t[0] > 32 && t[0] < 127) { unsigned v = (unsigned)t[0]; return Str("&#x") + "0123456789abcdef"[v >> 4] + "0123456789ABCDEF"[v & 15] + ";" + esc(t.substr(1)); }
  }
  return esc(t);
}
inline void ser(const El &e, Str &o, int ind = 0) {
  bool flat = style() & 32; Str nl = flat ? "" : "\r\n", in = flat ? Str() : Str(ind, '\t'), q = flat ? "'" : "\"";
  o += in + "<" + e.name; for (auto &a : e.attrs) o += (flat ? "\n" : " ") + a.first + (flat ? " = " : "=") + q + esc(a.second) + q;
  if (e.kids.empty() && e.text.empty()) { o += (flat ? "/>" : " />") + nl; return; }
  o += ">"; if (e.kids.empty()) o += styled(e.text); else { o += nl; for (auto &k : e.kids) { if (style() & 4) o += "<!-- <" + k.name + "> -->" + nl; ser(k, o, ind + 1); } o += in; }
  o += "</" + e.name + (flat ? " " : "") + ">" + nl;
}
// reorders and adds elements; elements of one name keep their order
inline void vary(El &e) {
  unsigned v = style();
  for (auto &k : e.kids) vary(k);
  if (v & 16) { std::vector<El> r; for (auto &k : e.kids) if (!k.text.empty() || !k.kids.empty() || !k.attrs.empty() || k.name == "Value") r.push_back(k); e.kids = r; }
  if (v & 2) { std::vector<El> r; std::vector<Str> names; for (auto &k : e.kids) { bool have = false; for (auto &n : names) have |= n == k.name; if (!have) names.push_back(k.name); }
    for (size_t i = names.size(); i-- > 0;) for (auto &k : e.kids) if (k.name == names[i]) r.push_back(k); e.kids = r; }
  if ((v & (8 | 64)) && !e.kids.empty()) {
    El u("PluginData"); u.attrs.push_back({"Version", "1"}); u.add("UUID", "x"); u.add("Key", "Title"); u.add("Entry").add("Group").add("Value", "unknown");
    if (v & 64) u.add("Value", "unknown secret").attrs.push_back({"Protected", "True"});
    e.kids.insert(e.kids.begin() + (long)(e.kids.size() / 2), u); if (v & 8) e.attrs.push_back({"unknown", "True"});
  }
}
inline Str document(const El &e) { Str o = style() & 32 ? "<?xml version='1.0'?>" : "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\r\n"; ser(e, o); return o; }
struct Reader {       // enough XML for KDBX: elements, attributes, text, character references, declarations, comments
  const Str &s; size_t p = 0; bool ok = true;
  explicit Reader(const Str &t) : s(t) {}
  static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  bool at(const char *t) const { size_t n = strlen(t); return s.size() - p >= n && s.compare(p, n, t) == 0; }
  void upto(const char *t) { while (p < s.size() && !at(t)) p++; if (p >= s.size()) ok = false; else p += strlen(t); }
  void skip() { for (;;) { while (p < s.size() && ws(s[p])) p++; if (at("<?")) upto("?>"); else if (at("<!--")) upto("-->"); else return; } }
  Str name() { Str n; while (p < s.size() && ((s[p] >= 'a' && s[p] <= 'z') || (s[p] >= 'A' && s[p] <= 'Z') || (s[p] >= '0' && s[p] <= '9'))) n += s[p++]; if (n.empty()) ok = false; return n; }
  char ref() {       // at '&'
    size_t e = p; while (e < s.size() && s[e] != ';' && e < p + 12) e++;
    if (e >= s.size() || s[e] != ';') { ok = false; return 0; }
    Str r = s.substr(p + 1, e - p - 1); p = e + 1;
    if (r == "lt") return '<'; if (r == "gt") return '>'; if (r == "amp") return '&'; if (r == "quot") return '"'; if (r == "apos") return '\'';
    unsigned v = 0; if (r.size() > 1 && r[0] == '#') { if (r[1] == 'x') { for (size_t i = 2; i < r.size(); i++) v = v * 16 + (r[i] <= '9' ? r[i] - '0' : (r[i] | 32) - 'a' + 10); } else for (size_t i = 1; i < r.size(); i++) v = v * 10 + r[i] - '0'; if (v < 128) return (char)v; }
    ok = false; return 0;
  }
  // text is kept as written; white space around it does not count (as in the library)
  Str chars(char end) {
    Str t;
    while (ok && p < s.size() && s[p] != end) {
      if (s[p] == '&') t += ref();
      else { t += s[p]; p++; }
    }
    return t;
  }
  El element() {
    El e; if (p >= s.size() || s[p] != '<') { ok = false; return e; }
    p++; e.name = name();
    for (;;) {
      while (p < s.size() && ws(s[p])) p++;
      if (!ok || p >= s.size()) { ok = false; return e; }
      if (at("/>")) { p += 2; return e; }
      if (s[p] == '>') { p++; break; }
      Str n = name(); if (!at("=\"")) { ok = false; return e; }
      p += 2; Str v = chars('"'); p++; e.attrs.push_back({n, v});
    }
    for (;;) {
      size_t b = p; while (b < s.size() && ws(s[b])) b++;
      if (b >= s.size()) { ok = false; return e; }
      if (s[b] == '<') {
        p = b; if (at("<!--") || at("<?")) { skip(); continue; }
        if (at("</")) { p += 2; if (name() != e.name || p >= s.size() || s[p] != '>') ok = false; p++; return e; }
        e.kids.push_back(element()); if (!ok) return e;
      } else e.text += chars('<');
    }
  }
  bool read(El &root) { skip(); root = element(); skip(); return ok && p == s.size(); }
};
// ---- protected stream
struct Masker {
  Str key; size_t pos = 0, have = 0; Str stream;
  explicit Masker(const Str &pkey) : key(spec::sha256(pkey)) {}
  Str operator()(const Str &d) {
    if (stream.size() < pos + d.size()) { have = pos + d.size() + 256; stream = spec::salsa20_stream(key, spec::kKdbxNonce, have); }
    Str r; for (char c : d) r += (char)(c ^ stream[pos++]); return r;
  }
};
// replaces, in document order, the masked text of every element marked protected
inline bool unmask(El &e, Masker &m) {
  if (e.attr("Protected") == "True" && !e.text.empty()) { Str d; if (!spec::b64dec(e.text, d)) return false; e.text = m(d); }
  for (auto &k : e.kids) if (!unmask(k, m)) return false;
  return true;
}
inline void mask(El &e, Masker &m) {
  if (e.attr("Protected") == "True") e.text = spec::b64enc(m(e.text));
  for (auto &k : e.kids) mask(k, m);
}
// ---- numbers, times (calendar arithmetic by the C library, UTC)
inline Str dec(uint64_t v) { Str s; do { s.insert(s.begin(), "0123456789"[v % 10]); v /= 10; } while (v); return s; }
inline Str sdec(int64_t v) { return v < 0 ? "-" + dec(0 - (uint64_t)v) : dec((uint64_t)v); }
inline bool undec(const Str &s, int64_t &v) { bool neg = !s.empty() && s[0] == '-'; uint64_t r = 0; if (s.size() == (size_t)neg) return false; for (size_t i = neg; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; r = r * 10 + (uint64_t)(s[i] - '0'); } v = (int64_t)(neg ? 0 - r : r); return true; }
inline const Str &never() { static const Str s("2999-12-28T22:59:59Z"); return s; }
inline Str two(unsigned v) { return Str(1, (char)('0' + v / 10)) + (char)('0' + v % 10); }
inline Str iso(std::time_t t) {
  if (!t) return never();
  std::tm m = std::tm(); gmtime_r(&t, &m); unsigned y = (unsigned)m.tm_year + 1900;
  return two(y / 100) + two(y % 100) + "-" + two((unsigned)m.tm_mon + 1) + "-" + two((unsigned)m.tm_mday) + "T" + two((unsigned)m.tm_hour) + ":" + two((unsigned)m.tm_min) + ":" + two((unsigned)m.tm_sec) + "Z";
}
inline bool uniso(const Str &s, std::time_t &t) {
  if (s.size() != 20 || s[4] != '-' || s[7] != '-' || s[10] != 'T' || s[13] != ':' || s[16] != ':' || s[19] != 'Z') return false;
  auto n = [&](int o, int k) { unsigned v = 0; for (int i = 0; i < k; i++) v = v * 10 + (unsigned)(s[o + i] - '0'); return v; };
  unsigned y = n(0, 4); if (y == 2999) { t = 0; return s == never(); }
  std::tm m = std::tm(); m.tm_year = (int)y - 1900; m.tm_mon = (int)n(5, 2) - 1; m.tm_mday = (int)n(8, 2); m.tm_hour = (int)n(11, 2); m.tm_min = (int)n(14, 2); m.tm_sec = (int)n(17, 2); t = timegm(&m); return true;
}

// ---- database -> document (as the format describes it)
typedef std::shared_ptr<Binary> Bin;
inline Str b64(const std::array<uint8_t, 16> &a) { return spec::b64enc(spec::str(a)); }
inline Str tf(bool b) { return b ? "True" : "False"; }
inline void times(El &e, std::time_t c, std::time_t m, std::time_t a, std::time_t x, std::time_t l, bool ex, uint32_t u) {
  El &t = e.add("Times"); t.add("LastModificationTime", iso(m)); t.add("CreationTime", iso(c)); t.add("LastAccessTime", iso(a)); t.add("ExpiryTime", iso(x)); t.add("Expires", tf(ex)); t.add("UsageCount", dec(u)); t.add("LocationChanged", iso(l));
}
inline void string_el(El &e, const Str &k, const protect<Str> &v) { El &s = e.add("String"); s.add("Key", k); El &x = s.add("Value", *v); if (v.is_protected()) x.attrs.push_back({"Protected", "True"}); }
inline El entry_el(const Entry &e, const Metadata &m) {
  El r("Entry"); r.add("UUID", b64(e.uuid())); r.add("IconID", dec(e.icon())); if (auto i = e.custom_icon().lock()) r.add("CustomIconUUID", b64(i->uuid()));
  r.add("ForegroundColor", e.fg_color()); r.add("BackgroundColor", e.bg_color()); r.add("OverrideURL", e.override_url()); r.add("Tags", e.tags());
  times(r, e.creation_time(), e.modification_time(), e.access_time(), e.expiry_time(), e.move_time(), e.expires(), e.usage_count());
  for (auto &f : e.custom_fields()) string_el(r, f.key(), f.value());
  string_el(r, "Notes", e.notes()); string_el(r, "Password", e.password()); string_el(r, "Title", e.title()); string_el(r, "URL", e.url()); string_el(r, "UserName", e.username());
  for (auto &a : e.attachments()) {
    El &b = r.add("Binary"); b.add("Key", a->name()); int i = gen::index_of(m.binaries(), a->binary());
    if (i >= 0) b.add("Value").attrs.push_back({"Ref", dec(i)});
    else if (a->binary()) { auto &d = a->binary()->data(); El &v = b.add("Value", d.is_protected() ? *d : spec::b64enc(*d)); if (d.is_protected()) v.attrs.push_back({"Protected", "True"}); }
  }
  auto &at = const_cast<Entry &>(e).auto_type(); El &t = r.add("AutoType"); t.add("Enabled", tf(at.enabled())); t.add("DataTransferObfuscation", dec(at.obfuscation())); t.add("DefaultSequence", at.sequence());
  for (auto &x : at.associations()) { El &q = t.add("Association"); q.add("Window", x.window()); q.add("KeystrokeSequence", x.sequence()); }
  El h("History"); for (auto &x : e.history()) h.kids.push_back(entry_el(*x, m)); r.kids.push_back(h);
  return r;
}
inline El group_el(const Group &g, const Metadata &m) {
  El r("Group"); r.add("UUID", b64(g.uuid())); r.add("Name", g.name()); r.add("Notes", g.notes()); r.add("IconID", dec(g.icon())); if (auto i = g.custom_icon().lock()) r.add("CustomIconUUID", b64(i->uuid()));
  times(r, g.creation_time(), g.modification_time(), g.access_time(), g.expiry_time(), g.move_time(), g.expires(), g.usage_count());
  r.add("IsExpanded", tf(g.expanded())); r.add("DefaultAutoTypeSequence", g.default_autotype_sequence()); r.add("EnableAutoType", tf(g.autotype())); r.add("EnableSearching", tf(g.search()));
  auto v = g.last_visible_entry().lock(); r.add("LastTopVisibleEntry", v ? b64(v->uuid()) : spec::b64enc(Str(16, 0)));
  for (auto &e : g.Entries()) r.kids.push_back(entry_el(*e, m));
  for (auto &c : g.Groups()) r.kids.push_back(group_el(*c, m));
  return r;
}
inline El meta_el(const Metadata &m0) {
  Metadata &m = const_cast<Metadata &>(m0); El r("Meta"); Str zero = spec::b64enc(Str(16, 0));
  r.add("Generator", m.generator()); r.add("HeaderHash", "@HASH@"); r.add("DatabaseName", m.database_name().value()); r.add("DatabaseNameChanged", iso(m.database_name().time())); r.add("DatabaseDescription", m.database_desc().value()); r.add("DatabaseDescriptionChanged", iso(m.database_desc().time()));
  r.add("DefaultUserName", m.default_username().value()); r.add("DefaultUserNameChanged", iso(m.default_username().time())); r.add("MaintenanceHistoryDays", dec(m.maintenance_hist_days())); r.add("Color", m.database_color()); r.add("MasterKeyChanged", iso(m.master_key_changed()));
  r.add("MasterKeyChangeRec", sdec(m.master_key_change_rec())); r.add("MasterKeyChangeForce", sdec(m.master_key_change_force()));
  El &p = r.add("MemoryProtection"); auto &mp = m.memory_protection(); p.add("ProtectTitle", tf(mp.title())); p.add("ProtectUserName", tf(mp.username())); p.add("ProtectPassword", tf(mp.password())); p.add("ProtectURL", tf(mp.url())); p.add("ProtectNotes", tf(mp.notes()));
  El &ic = r.add("CustomIcons"); for (auto &i : m.icons()) { El &x = ic.add("Icon"); x.add("UUID", b64(i->uuid())); x.add("Data", spec::b64enc(Str(i->data().begin(), i->data().end()))); }
  auto lock = [&](std::weak_ptr<Group> g) { auto q = g.lock(); return q ? b64(q->uuid()) : zero; };
  r.add("RecycleBinEnabled", tf(!!m.recycle_bin())); r.add("RecycleBinUUID", m.recycle_bin() ? b64(m.recycle_bin()->uuid()) : zero); r.add("RecycleBinChanged", iso(m.recycle_bin_changed()));
  if (m.entry_templates()) r.add("EntryTemplatesGroup", b64(m.entry_templates()->uuid())); r.add("EntryTemplatesGroupChanged", iso(m.entry_templates_changed()));
  r.add("HistoryMaxItems", sdec(m.history_max_items())); r.add("HistoryMaxSize", sdec(m.history_max_size())); r.add("LastSelectedGroup", lock(m.last_selected_group())); r.add("LastTopVisibleGroup", lock(m.last_visible_group()));
  El &bs = r.add("Binaries"); unsigned id = 0;
  for (auto &b : m.binaries()) { bool pr = b->data().is_protected(); El &x = bs.add("Binary", pr ? *b->data() : spec::b64enc(b->compress() ? gz(*b->data()) : *b->data())); x.attrs.push_back({"ID", dec(id++)}); if (pr) x.attrs.push_back({"Protected", "True"}); else if (b->compress()) x.attrs.push_back({"Compressed", "True"}); }
  El &cd = r.add("CustomData"); for (auto &f : m.fields()) { El &x = cd.add("Item"); x.add("Key", f.key()); x.add("Value", f.value()); }
  return r;
}
inline El tree(const Database &db) {     // with protected texts still in the clear: mask() them in document order
  El r("KeePassFile"); r.kids.push_back(meta_el(*db.meta())); El &x = r.add("Root"); x.kids.push_back(group_el(*db.root(), *db.meta())); x.add("DeletedObjects"); return r;
}
inline Header header_of(const Database &db) {
  Header h; h.comp = n32(db.compress()); h.mseed.assign(db.master_seed().begin(), db.master_seed().end()); h.tseed = spec::str(db.transform_seed()); h.iv = spec::str(db.init_vector()); h.pkey = spec::str(db.inner_random_stream_key()); h.rounds = db.transform_rounds();
  for (int i = 0; i < 32; i++) h.start += (char)(9 * i + 4);
  return h;
}
// the file an independent program would write for `db`
inline Str write_file(const Database &db, const gen::KeySpec &k, size_t bs = 1 << 20) { El t = tree(db); Header h = header_of(db); t.kids[0].kids[1].text = hash64(h); vary(t); Masker m(h.pkey); mask(t, m); return build(h, k, document(t), bs); }
// ---- document -> database.  Every element the library is expected to write must be there; `bad` tells what was not understood.
struct Mapper {
  const char *bad = nullptr; std::shared_ptr<Metadata> meta = std::make_shared<Metadata>(); std::vector<std::pair<Str, std::shared_ptr<Icon>>> icons; std::vector<std::pair<Str, Bin>> bins; std::vector<std::pair<Str, std::shared_ptr<Group>>> groups;
  void fail(const char *w) { if (!bad) bad = w; }
  std::time_t t(const El &e, const char *n) { std::time_t v = 0; if (!uniso(e.get(n), v)) fail(n); return v; }
  int64_t num(const El &e, const char *n) { int64_t v = 0; if (!undec(e.get(n), v)) fail(n); return v; }
  bool flag(const El &e, const char *n) { Str s = e.get(n); if (s == "True" || s == "true" || s == "1") return true; if (!(s == "False" || s == "false" || s == "0")) fail(n); return false; }
  std::array<uint8_t, 16> id(const Str &s) { Str d; if (!spec::b64dec(s, d) || d.size() != 16) { fail("id"); d = Str(16, 0); } return spec::arr<16>(d); }
  template <class T> std::shared_ptr<T> ref(const std::vector<std::pair<Str, std::shared_ptr<T>>> &v, const Str &k) { for (auto &x : v) if (x.first == k) return x.second; return nullptr; }
  const El &need(const El &e, const char *n) { static const El none; auto k = e.kid(n); if (!k) fail(n); return k ? *k : none; }
  protect<Str> val(const El &s) { const El &v = need(s, "Value"); return protect<Str>(v.text, v.attr("Protected") == "True"); }
  Bin binary(const El &v) {
    if (v.attr("Protected") == "True") return std::make_shared<Binary>(protect<Str>(v.text, true));
    Str d; if (!spec::b64dec(v.text, d)) fail("Binary");
    bool c = v.attr("Compressed") == "True"; if (c) { Str u; if (!ungz(d, u)) fail("Compressed"); d = u; }
    auto b = std::make_shared<Binary>(protect<Str>(d, false)); b->set_compress(c); return b;
  }
  template <class T> void times(const El &e, T &x) {
    const El &v = need(e, "Times"); x.set_creation_time(t(v, "CreationTime")); x.set_modification_time(t(v, "LastModificationTime")); x.set_access_time(t(v, "LastAccessTime")); x.set_expiry_time(t(v, "ExpiryTime")); x.set_move_time(t(v, "LocationChanged")); x.set_expires(flag(v, "Expires")); x.set_usage_count((uint32_t)num(v, "UsageCount"));
  }
  std::shared_ptr<Entry> entry(const El &e) {
    auto r = std::make_shared<Entry>(); r->set_uuid(id(e.get("UUID"))); r->set_icon((uint32_t)num(e, "IconID")); r->set_fg_color(e.get("ForegroundColor")); r->set_bg_color(e.get("BackgroundColor")); r->set_override_url(e.get("OverrideURL")); r->set_tags(e.get("Tags"));
    if (e.kid("CustomIconUUID")) r->set_custom_icon(ref(icons, e.get("CustomIconUUID")));
    times(e, *r);
    const El &a = need(e, "AutoType"); r->auto_type().set_enabled(flag(a, "Enabled")); r->auto_type().set_obfuscation((uint32_t)num(a, "DataTransferObfuscation")); r->auto_type().set_sequence(a.get("DefaultSequence"));
    for (auto &k : a.kids) if (k.name == "Association") r->auto_type().AddAssociation(k.get("Window"), k.get("KeystrokeSequence"));
    for (auto &k : e.kids) {
      if (k.name == "String") { Str n = k.get("Key"); protect<Str> v = val(k); if (n == "Title") r->set_title(v); else if (n == "URL") r->set_url(v); else if (n == "UserName") r->set_username(v); else if (n == "Password") r->set_password(v); else if (n == "Notes") r->set_notes(v); else r->AddCustomField(n, v); }
      else if (k.name == "Binary") {
        Bin b; if (auto v = k.kid("Value")) { Str rf = v->attr("Ref"); if (!rf.empty()) { b = ref(bins, rf); if (!b) fail("Ref"); } else b = binary(*v); }
        r->AddAttachment(gen::att(k.get("Key"), b));
      }
    }
    if (auto h = e.kid("History")) for (auto &k : h->kids) r->AddHistoryEntry(entry(k));
    return r;
  }
  std::shared_ptr<Group> group(const El &e) {
    auto r = std::make_shared<Group>(); r->set_uuid(id(e.get("UUID"))); groups.push_back({e.get("UUID"), r}); r->set_name(e.get("Name")); r->set_notes(e.get("Notes")); r->set_icon((uint32_t)num(e, "IconID"));
    if (e.kid("CustomIconUUID")) r->set_custom_icon(ref(icons, e.get("CustomIconUUID")));
    times(e, *r); r->set_expanded(flag(e, "IsExpanded")); r->set_default_autotype_sequence(e.get("DefaultAutoTypeSequence")); r->set_autotype(flag(e, "EnableAutoType")); r->set_search(flag(e, "EnableSearching"));
    Str v = e.get("LastTopVisibleEntry");
    for (auto &k : e.kids) { if (k.name == "Entry") { auto x = entry(k); r->AddEntry(x); if (!v.empty() && k.get("UUID") == v) r->set_last_visible_entry(x); } else if (k.name == "Group") r->AddGroup(group(k)); }
    return r;
  }
  std::unique_ptr<Database> database(const El &root, const Header &h, Str &hash) {
    std::unique_ptr<Database> db(new Database()); const El &m = need(root, "Meta"); Metadata &r = *meta;
    if (root.name != "KeePassFile") fail("KeePassFile");
    if (!spec::b64dec(m.get("HeaderHash"), hash)) fail("HeaderHash");
    r.set_generator(m.get("Generator")); r.set_database_name(temporal<Str>(m.get("DatabaseName"), t(m, "DatabaseNameChanged"))); r.set_database_desc(temporal<Str>(m.get("DatabaseDescription"), t(m, "DatabaseDescriptionChanged"))); r.set_default_username(temporal<Str>(m.get("DefaultUserName"), t(m, "DefaultUserNameChanged")));
    r.set_maintenance_hist_days((uint32_t)num(m, "MaintenanceHistoryDays")); r.set_database_color(m.get("Color")); r.set_master_key_changed(t(m, "MasterKeyChanged")); r.set_master_key_change_rec(num(m, "MasterKeyChangeRec")); r.set_master_key_change_force(num(m, "MasterKeyChangeForce"));
    const El &p = need(m, "MemoryProtection"); auto &mp = r.memory_protection(); mp.set_title(flag(p, "ProtectTitle")); mp.set_username(flag(p, "ProtectUserName")); mp.set_password(flag(p, "ProtectPassword")); mp.set_url(flag(p, "ProtectURL")); mp.set_notes(flag(p, "ProtectNotes"));
    r.set_recycle_bin_changed(t(m, "RecycleBinChanged")); r.set_entry_templates_changed(t(m, "EntryTemplatesGroupChanged")); r.set_history_max_items((int32_t)num(m, "HistoryMaxItems")); r.set_history_max_size(num(m, "HistoryMaxSize"));
    for (auto &k : need(m, "CustomIcons").kids) { Str d; if (!spec::b64dec(k.get("Data"), d)) fail("Icon"); auto i = std::make_shared<Icon>(id(k.get("UUID")), std::vector<uint8_t>(d.begin(), d.end())); r.AddIcon(i); icons.push_back({k.get("UUID"), i}); }
    for (auto &k : need(m, "Binaries").kids) { auto b = binary(k); r.AddBinary(b); bins.push_back({k.attr("ID"), b}); }
    for (auto &k : need(m, "CustomData").kids) r.AddField(k.get("Key"), k.get("Value"));
    const El &x = need(root, "Root"); db->set_root(group(need(x, "Group"))); db->set_meta(meta);
    if (flag(m, "RecycleBinEnabled")) r.set_recycle_bin(ref(groups, m.get("RecycleBinUUID")));
    if (m.kid("EntryTemplatesGroup")) r.set_entry_templates(ref(groups, m.get("EntryTemplatesGroup")));
    if (auto g = ref(groups, m.get("LastSelectedGroup"))) r.set_last_selected_group(g); if (auto g = ref(groups, m.get("LastTopVisibleGroup"))) r.set_last_visible_group(g);
    db->set_cipher(Database::Cipher::kAes); db->set_compress(h.comp[0]); db->set_master_seed(std::vector<uint8_t>(h.mseed.begin(), h.mseed.end())); db->set_transform_seed(spec::arr<32>(h.tseed)); db->set_init_vector(spec::arr<16>(h.iv)); db->set_inner_random_stream_key(spec::arr<32>(h.pkey)); db->set_transform_rounds(h.rounds);
    return db;
  }
};
}
