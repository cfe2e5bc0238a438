// Independent KDB container codec, written from the format description (not from the library).
#pragma once
#include "dbgen.h"
namespace kdbspec {
typedef std::string Str;
inline Str n16(uint16_t v) { return Str{(char)v, (char)(v >> 8)}; }
inline Str n32(uint32_t v) { return Str{(char)v, (char)(v >> 8), (char)(v >> 16), (char)(v >> 24)}; }
inline uint32_t g32(const Str &s, size_t o) { return (uint8_t)s[o] | (uint32_t)(uint8_t)s[o + 1] << 8 | (uint32_t)(uint8_t)s[o + 2] << 16 | (uint32_t)(uint8_t)s[o + 3] << 24; }
inline Str field(uint16_t type, const Str &data) { return n16(type) + n32(data.size()) + data; }
// ---- key: sub-keys, composite, transformation
inline Str transform(const Str &raw, const Str &seed, uint64_t rounds) {
  unsigned char b[32]; memcpy(b, raw.data(), 32);
  spec::AesBlock a(seed);
  for (uint64_t i = 0; i < rounds; i++) { unsigned char t[32]; a.enc(b, t); a.enc(b + 16, t + 16); memcpy(b, t, 32); }
  return spec::sha256(Str((char *)b, 32));
}
inline Str kdb_composite(const gen::KeySpec &k) {
  if (k.has_pass && k.has_file) return spec::sha256(spec::sha256(k.pass) + k.file);
  return k.has_pass ? spec::sha256(k.pass) : k.file;
}
inline Str kdbx_composite(const gen::KeySpec &k) { Str s; if (k.has_pass) s += spec::sha256(k.pass); if (k.has_file) s += k.file; return spec::sha256(s); }
struct Header { Str sig0 = n32(0x9aa2d903), sig1 = n32(0xb54bfb65); uint32_t flags = 3, version = 0x00030002; Str mseed, iv, tseed, hash; uint32_t ngroups = 0, nentries = 0, rounds = 0; };
inline Str head(const Header &h) { return h.sig0 + h.sig1 + n32(h.flags) + n32(h.version) + h.mseed + h.iv + n32(h.ngroups) + n32(h.nentries) + h.hash + h.tseed + n32(h.rounds); }
inline Str finalkey(const Header &h, const gen::KeySpec &k) { return spec::sha256(h.mseed + transform(kdb_composite(k), h.tseed, h.rounds)); }
inline Str build(Header h, const gen::KeySpec &k, const Str &content) {
  h.hash = spec::sha256(content);
  Str key = finalkey(h, k);
  if (h.flags & 2) return head(h) + spec::cbc_enc(spec::AesBlock(key), h.iv, content);
  return head(h) + spec::cbc_enc(spec::TwofishBlock(key), h.iv, content);
}
inline bool parse(const Str &f, Header &h, Str &body) {
  if (f.size() < 124) return false;
  h.sig0 = f.substr(0, 4); h.sig1 = f.substr(4, 4); h.flags = g32(f, 8); h.version = g32(f, 12); h.mseed = f.substr(16, 16); h.iv = f.substr(32, 16);
  h.ngroups = g32(f, 48); h.nentries = g32(f, 52); h.hash = f.substr(56, 32); h.tseed = f.substr(88, 32); h.rounds = g32(f, 120); body = f.substr(124); return true;
}
inline Header stdheader() {
  Header h; for (int i = 0; i < 16; i++) { h.mseed += (char)(5 * i + 2); h.iv += (char)(11 * i); } for (int i = 0; i < 32; i++) h.tseed += (char)(3 * i + 1); return h;
}
// ---- packed time: 00YYYYYY YYYYYYMM MMDDDDDH HHHHMMMM MMSSSSSS (UTC in the harnesses)
inline Str ptime(unsigned y, unsigned mo, unsigned d, unsigned h, unsigned mi, unsigned s) {
  return Str{(char)(y >> 6), (char)((y & 63) << 2 | mo >> 2), (char)((mo & 3) << 6 | d << 1 | h >> 4), (char)((h & 15) << 4 | mi >> 2), (char)((mi & 3) << 6 | s)};
}
inline const Str &never() { static const Str n("\x2e\xdf\x39\x7e\xfb", 5); return n; }
}
