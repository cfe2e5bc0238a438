// C12, C13: keys.
//  0 kind plen rounds     derived key against the definition (kind as gen::keyspec, 8: set twice), both resolutions
//  1 what n1 n2           different secrets give different keys: 0 passwords, 1 key files, 2 password / key file, 3 one / both
//  10 variant prior       XML key file with 32 arbitrary bytes
//  11 pos n prior         64 hexadecimal digits, those at pos..pos+n-1 arbitrary
//  12 pos n prior         64 characters, those at pos..pos+n-1 any bytes
//  13 len kind prior      hexadecimal text of other lengths (kind 0), arbitrary bytes (1), 32 arbitrary bytes (2)
//  14 n prior             XML key file whose data has n bytes
//  15 pos n prior         XML key file with arbitrary characters in the data, at pos..pos+n-1
//  16 lo hi prior         XML key file with one byte of the file, at lo..hi-1, replaced by an arbitrary one
//  17 variant prior       other XML; missing file
#include "kdbspec.h"
using namespace keepass; using gen::Str;
static uint64_t P(int i) { return kp_param(i); }
typedef Key::SubKeyResolution Res;
static std::array<uint8_t, 32> seed0() { std::array<uint8_t, 32> s; for (int i = 0; i < 32; i++) s[i] = (uint8_t)(3 * i + 1); return s; }
static Str derived(const Key &k, const std::array<uint8_t, 32> &seed, uint64_t rounds, bool kdbx) { auto a = k.Transform(seed, rounds, kdbx ? Res::kHashSubKeys : Res::kHashSubKeysOnlyIfCompositeKey); return spec::str(a); }
static Str want(const gen::KeySpec &k, const std::array<uint8_t, 32> &seed, uint64_t rounds, bool kdbx) { return kdbspec::transform(kdbx ? kdbspec::kdbx_composite(k) : kdbspec::kdb_composite(k), spec::str(seed), rounds); }
static void is_key(const Key &key, const gen::KeySpec &k, const char *what) { for (int x = 0; x < 2; x++) gen::same(derived(key, seed0(), 0, x), want(k, seed0(), 0, x), what); }
static const char *kHead = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n\t<Key>\n\t\t<Data>", *kTail = "</Data>\n\t</Key>\n</KeyFile>\n";
static Str fixed32() { Str s; for (int i = 0; i < 32; i++) s += (char)(11 * i + 5); return s; }
// the state of the key before: 0 nothing (a password is set afterwards), 1 password, 2 other key file, 3 both
static void prior(uint64_t p, Key &key, gen::KeySpec &k) {
  if (p & 1) { k.has_pass = true; k.pass = kp::bytes(3, "pass"); key.SetPassword(k.pass); }
  if (p & 2) { k.has_file = true; k.file = fixed32(); kp::put("old.key", Str(kHead) + spec::b64enc(k.file) + kTail); key.SetKeyFile(kp::path("old.key")); }
}
static void finish(Key &key, gen::KeySpec &k, const char *what) { if (!k.has_pass && !k.has_file) { k.has_pass = true; k.pass = "pw"; key.SetPassword("pw"); } is_key(key, k, what); }
// loads `text` as a key file: expected content `b` (empty: refused)
static void load(const Str &text, const Str *b, uint64_t pr) {
  Key key; gen::KeySpec k; prior(pr, key, k); kp::put("k.key", text); bool refused = false;
  try { key.SetKeyFile(kp::path("k.key")); } catch (const FormatError &) { refused = true; } catch (const IoError &) { refused = true; }
  kp_check(refused == !b, b ? "good key file refused" : "bad key file accepted");
  if (!refused && b) { k.has_file = true; k.file = *b; kp_reach("accepted"); finish(key, k, "key file content"); } else { kp_reach("refused"); finish(key, k, "key changed by a refused key file"); }
}
static bool hexval(char c, unsigned &v) { unsigned u = (uint8_t)c; bool d = u >= '0' && u <= '9', l = (u | 32) >= 'a' && (u | 32) <= 'f'; v = d ? u - '0' : (u | 32) - 'a' + 10; return d || l; }
extern "C" void kp_main() {
  kp_crypto_mode(P(0) == 1);
  switch (P(0)) {
    case 0: {
      uint64_t kind = P(1); gen::KeySpec k = gen::keyspec(kind, P(2), true); Key key = gen::mkkey(k, kind); auto seed = gen::a32("seed");
      if (kind & 8) { Key k2; k2.SetPassword("other"); kp::put("o.key", Str(kHead) + spec::b64enc(fixed32()) + kTail); if (k.has_file) k2.SetKeyFile(kp::path("o.key")); if (k.has_file) k2.SetKeyFile(kp::path("key.bin")); if (k.has_pass) k2.SetPassword(k.pass); else { k.has_pass = true; k.pass = "other"; } key = k2; }
      if (kind == 1) { Key k3(k.pass); gen::same(derived(k3, seed, P(3), true), want(k, seed, P(3), true), "derived key"); }
      for (int x = 0; x < 2; x++) gen::same(derived(key, seed, P(3), x), want(k, seed, P(3), x), x ? "derived key (KDBX)" : "derived key (KDB)");
      const Key copy = key; gen::same(derived(copy, seed, P(3), true), want(k, seed, P(3), true), "derived key of a copy"); kp_reach("done"); break;
    }
    case 1: {
      Key a, b; Str x = kp::bytes(P(1) == 1 ? 32 : P(2), "a"), y = kp::bytes(P(1) == 1 ? 32 : P(3), "b"); auto seed = gen::a32("seed"); bool eq = x.size() == y.size(); if (eq) { unsigned d = 0; for (size_t i = 0; i < x.size(); i++) d |= (uint8_t)x[i] ^ (uint8_t)y[i]; eq = d == 0; }
      auto file = [&](const Str &s) { kp::put("k.key", Str(kHead) + spec::b64enc(s) + kTail); return kp::path("k.key"); };
      if (P(1) == 0) { kp_assume(!eq); a.SetPassword(x); b.SetPassword(y); } else if (P(1) == 1) { kp_assume(!eq); a.SetKeyFile(file(x)); b.SetKeyFile(file(y)); }
      else if (P(1) == 2) { a.SetPassword(x); b.SetKeyFile(file(fixed32())); Str h = spec::sha256(x); bool same = true; for (int i = 0; i < 32; i++) same &= h[i] == fixed32()[i]; kp_assume(!same); }
      else { a.SetPassword(x); b.SetPassword(x); b.SetKeyFile(file(fixed32())); }
      for (int r = 0; r < 2; r++) { Str u = derived(a, seed, 1, r), v = derived(b, seed, 1, r); unsigned d = 0; for (int i = 0; i < 32; i++) d |= (uint8_t)u[i] ^ (uint8_t)v[i]; kp_check(d != 0, "different secrets give the same key"); }
      kp_reach("done"); break;
    }
    case 10: {
      Str b = kp::bytes(32, "keyfile"), e = spec::b64enc(b), t;
      switch (P(1)) {
        case 0: t = Str(kHead) + e + kTail; break;
        case 1: t = "<KeyFile><Key><Data>" + e + "</Data></Key></KeyFile>"; break;
        case 2: t = "\xef\xbb\xbf<?xml version=\"1.0\"?>\r\n<!-- key -->\r\n<KeyFile a=\"1\">\r\n<Key>\r\n<Data>\r\n  " + e.substr(0, 20) + "\r\n" + e.substr(20) + "\r\n</Data>\r\n</Key>\r\n</KeyFile>"; break;
        case 3: t = "<KeyFile><Key><Other>x</Other><Data>" + e + "</Data></Key><Meta/></KeyFile>"; break;
        default: t = "<KeyFile><Key><Data><![CDATA[" + e + "]]></Data></Key></KeyFile>"; break;
      }
      load(t, &b, P(2)); break;
    }
    case 11: case 12: {
      Str t, b; for (int i = 0; i < 64; i++) t += "0123456789abcdefABCDEF"[(i * 7 + 3) % 22];
      Str s = kp::bytes(P(2), "digits"); bool good = true; unsigned v, w; for (size_t i = 0; i < s.size(); i++) { t[P(1) + i] = s[i]; if (P(0) == 11) kp_assume(hexval(s[i], v)); else if (P(1) == 0) kp_assume(s[0] != '<' && s[0] != ' '); }
      for (int i = 0; i < 64; i += 2) { good &= hexval(t[i], v); good &= hexval(t[i + 1], w); b += (char)(v << 4 | w); }
      if (kp_concretize(good)) load(t, &b, P(3)); else load(t, nullptr, P(3)); break;
    }
    case 13: {
      Str t; size_t n = P(1); if (P(2) == 0) for (size_t i = 0; i < n; i++) t += "0123456789abcdef"[(i * 7 + 3) % 16]; else { t = kp::bytes(P(2) == 2 ? 2 : n, "file"); if (P(2) == 2) { t += fixed32(); t.resize(n); kp_assume(t[0] != 0); } }
      if (P(2) == 3) { for (size_t i = 0; i < 64; i++) t.insert(t.begin(), "0123456789abcdef"[(i * 5 + 3) % 16]); }
      load(t, nullptr, P(3)); break;
    }
    case 14: { Str b = kp::bytes(P(1), "keyfile"); load(Str(kHead) + spec::b64enc(b) + kTail, P(1) == 32 ? &b : nullptr, P(2)); break; }
    case 15: {
      Str e = spec::b64enc(fixed32()), b; Str s = kp::bytes(P(2), "characters"); for (size_t i = 0; i < s.size(); i++) { kp_assume(s[i] != '<' && s[i] != '&' && s[i] != 0); e[P(1) + i] = s[i]; }
      bool ok = spec::b64dec(e, b) && b.size() == 32; load(Str(kHead) + e + kTail, ok ? &b : nullptr, P(3)); break;
    }
    case 16: {
      Str h = kHead, e = spec::b64enc(fixed32()), t = h + e + kTail; size_t p = P(1) + kp_choose(P(2) - P(1), "position"); if (p >= t.size()) return; uint8_t v = kp::u8("value"); t[p] = (char)v; bool in = p >= h.size() && p < h.size() + e.size();
      Key key; gen::KeySpec k; prior(P(3), key, k); kp::put("k.key", t); bool refused = false;
      try { key.SetKeyFile(kp::path("k.key")); } catch (const FormatError &) { refused = true; } catch (const IoError &) { refused = true; }
      if (refused) { kp_reach("refused"); finish(key, k, "key changed by a refused key file"); break; }
      kp_reach("accepted"); k.has_file = true; k.file = fixed32(); if (in) { Str b; e[p - h.size()] = (char)v; if (!spec::b64dec(e, b)) b = ""; if (b.size() != 32) { kp_check(v == 0 || v == '<' || v == '&', "bad key file accepted"); return; } k.file = b; }
      finish(key, k, "key file content"); break;
    }
    default: {
      Str e = spec::b64enc(fixed32()), z = spec::b64enc(Str(32, 0)), t;;
      unsigned i = P(1); if (i == 20) { Key key; gen::KeySpec k; prior(P(2), key, k); bool nf = false; try { key.SetKeyFile(kp::path("none.key")); } catch (const FileNotFoundError &) { nf = true; } kp_check(nf, "missing key file not reported"); kp_reach("refused"); finish(key, k, "key changed by a missing key file"); break; }
      if (i == 21) { Str b(32, 0); load(Str(kHead) + z + kTail, &b, P(2)); break; } if (i == 22) { Str b(32, 0); load(Str(64, '0'), &b, P(2)); break; }
      const char *v = ""; switch (i) { case 0: v = "<KeyFile/>"; break; case 1: v = "<KeyFile><Key/></KeyFile>"; break; case 2: v = "<KeyFile><Key><Data/></Key></KeyFile>"; break; case 3: v = "<KeyFile><Key><Data>@</Data></Key></KeyFile>"; break; case 4: v = "<Key><Data>@</Data></Key>"; break; case 5: v = "<Other><Key><Data>@</Data></Key></Other>"; break; case 6: v = "<KeyFile><Data>@</Data></KeyFile>"; break; case 7: v = "<KeyFile><Key><Value>@</Value></Key></KeyFile>"; break; case 8: v = "<KeyFile><Key><Data>@@</Data></Key></KeyFile>"; break; case 9: v = "<KeyFile><Key><Data>@</Data>"; break; case 10: v = "<KeyFile><Key>@</Key></KeyFile>"; break; }
      for (const char *c = v; *c; c++) if (*c == '@') t += e; else t += *c;
      Str b = fixed32(); load(t, i == 3 ? &b : nullptr, P(2));
    }
  }
}
