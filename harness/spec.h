// Independent reference definitions used as oracles (written from the published specifications, not from the code under test).
#pragma once
#include "kp.h"
#include <array>
#include <cstring>
#include <openssl/aes.h>
#include <openssl/sha.h>
namespace spec {
typedef std::string Str;
// ---- RFC 4648 base64
static const char kB64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
struct B64Rev { signed char v[256]; B64Rev() { for (int i = 0; i < 256; i++) v[i] = -1; for (int i = 0; i < 64; i++) v[(uint8_t)kB64[i]] = (signed char)i; } };
inline int b64val(unsigned char c) { static B64Rev r; return r.v[c]; }
inline char b64chr(unsigned v) { return kB64[v & 63]; }
inline Str b64enc(const Str &s) {
  Str r; size_t n = s.size();
  for (size_t i = 0; i < n; i += 3) {
    uint32_t v = 0; for (size_t j = 0; j < 3; j++) v = v << 8 | (i + j < n ? (uint8_t)s[i + j] : 0);
    size_t have = n - i < 3 ? n - i : 3;
    for (size_t j = 0; j < 4; j++) r += j <= have ? b64chr(v >> (18 - 6 * j) & 63) : '=';
  }
  return r;
}
// false: not valid base64
inline bool b64dec(const Str &in, Str &out) {
  Str t; for (char c : in) if (!(c == ' ' || (c >= 9 && c <= 13))) t += c;
  out.clear();
  if (t.size() % 4) return false;
  for (size_t i = 0; i < t.size(); i += 4) {
    size_t pad = t[i + 3] == '=' ? (t[i + 2] == '=' ? 2 : 1) : 0;
    if (pad && i + 4 != t.size()) return false;
    uint32_t v = 0;
    for (size_t j = 0; j < 4; j++) {
      int x = j < 4 - pad ? b64val(t[i + j]) : 0;
      if (x < 0) return false;
      v = v << 6 | (uint32_t)x;
    }
    for (size_t j = 0; j < 3 - pad; j++) out += (char)(v >> (16 - 8 * j));
  }
  return true;
}
// ---- Salsa20 (D. J. Bernstein, "Salsa20 specification"), 256-bit key
inline uint32_t rotl(uint32_t v, unsigned n) { return v << n | v >> (32 - n); }
inline void quarterround(uint32_t &y0, uint32_t &y1, uint32_t &y2, uint32_t &y3) {
  y1 ^= rotl(y0 + y3, 7); y2 ^= rotl(y1 + y0, 9); y3 ^= rotl(y2 + y1, 13); y0 ^= rotl(y3 + y2, 18);
}
inline uint32_t le32(const unsigned char *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
inline void salsa20_block(const unsigned char *key, const unsigned char *nonce, uint64_t ctr, unsigned char *out) {
  unsigned char in[64]; const char *sg = "expand 32-byte k";
  memcpy(in, sg, 4); memcpy(in + 4, key, 16); memcpy(in + 20, sg + 4, 4); memcpy(in + 24, nonce, 8);
  for (int i = 0; i < 8; i++) in[32 + i] = (unsigned char)(ctr >> 8 * i);
  memcpy(in + 40, sg + 8, 4); memcpy(in + 44, key + 16, 16); memcpy(in + 60, sg + 12, 4);
  uint32_t x[16], z[16];
  for (int i = 0; i < 16; i++) x[i] = z[i] = le32(in + 4 * i);
  for (int r = 0; r < 10; r++) {
    quarterround(z[0], z[4], z[8], z[12]); quarterround(z[5], z[9], z[13], z[1]);        // columnround
    quarterround(z[10], z[14], z[2], z[6]); quarterround(z[15], z[3], z[7], z[11]);
    quarterround(z[0], z[1], z[2], z[3]); quarterround(z[5], z[6], z[7], z[4]);          // rowround
    quarterround(z[10], z[11], z[8], z[9]); quarterround(z[15], z[12], z[13], z[14]);
  }
  for (int i = 0; i < 16; i++) { uint32_t v = x[i] + z[i]; for (int j = 0; j < 4; j++) out[4 * i + j] = (unsigned char)(v >> 8 * j); }
}
inline Str salsa20_stream(const Str &key, const unsigned char *nonce, size_t n) {
  Str r; unsigned char b[64];
  for (uint64_t c = 0; r.size() < n; c++) { salsa20_block((const unsigned char *)key.data(), nonce, c, b); for (int i = 0; i < 64 && r.size() < n; i++) r += (char)b[i]; }
  return r;
}
static const unsigned char kKdbxNonce[8] = {0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a};
// ---- SHA-256 / AES-256 through OpenSSL
inline Str sha256(const Str &s) {
  Str r(32, 0); SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, s.data(), s.size()); SHA256_Final((unsigned char *)&r[0], &c); return r;
}
inline void aes(bool dec, const Str &key, const unsigned char *in, unsigned char *out) {
  AES_KEY k; if (dec) { AES_set_decrypt_key((const unsigned char *)key.data(), 256, &k); AES_decrypt(in, out, &k); }
  else { AES_set_encrypt_key((const unsigned char *)key.data(), 256, &k); AES_encrypt(in, out, &k); }
}
// ---- Twofish (Schneier et al., "Twofish: A 128-Bit Block Cipher"), 256-bit key
struct Twofish {
  uint8_t q[2][256]; uint8_t mul5b[256], mulef[256]; uint32_t K[40]; uint8_t S[4][4];   // S[i]: S_i vector, byte j
  static uint8_t ror4(uint8_t x, int n) { return (uint8_t)((x >> n | x << (4 - n)) & 15); }
  static uint8_t gf(uint8_t a, uint8_t b, unsigned poly) {
    unsigned r = 0, x = a; for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= x; x <<= 1; if (x & 0x100) x ^= poly; } return (uint8_t)r;
  }
  void tables() {
    static const uint8_t t[2][4][16] = {
      {{8, 1, 7, 0xD, 6, 0xF, 3, 2, 0, 0xB, 5, 9, 0xE, 0xC, 0xA, 4}, {0xE, 0xC, 0xB, 8, 1, 2, 3, 5, 0xF, 4, 0xA, 6, 7, 0, 9, 0xD},
       {0xB, 0xA, 5, 0xE, 6, 0xD, 9, 0, 0xC, 8, 0xF, 3, 2, 4, 7, 1}, {0xD, 7, 0xF, 4, 1, 2, 6, 0xE, 9, 0xB, 3, 0, 8, 5, 0xC, 0xA}},
      {{2, 8, 0xB, 0xD, 0xF, 7, 6, 0xE, 3, 1, 9, 4, 0, 0xA, 0xC, 5}, {1, 0xE, 2, 0xB, 4, 0xC, 3, 7, 6, 0xD, 0xA, 5, 0xF, 9, 0, 8},
       {4, 0xC, 7, 5, 1, 6, 9, 0xA, 0, 0xE, 0xD, 8, 2, 0xB, 3, 0xF}, {0xB, 9, 5, 1, 0xC, 3, 0xD, 0xE, 6, 4, 7, 0xF, 2, 0, 8, 0xA}}};
    for (int w = 0; w < 2; w++) for (int x = 0; x < 256; x++) {
      uint8_t a = x >> 4, b = x & 15, a1 = a ^ b, b1 = (a ^ ror4(b, 1) ^ (8 * a)) & 15;
      uint8_t a2 = t[w][0][a1], b2 = t[w][1][b1], a3 = a2 ^ b2, b3 = (a2 ^ ror4(b2, 1) ^ (8 * a2)) & 15;
      q[w][x] = t[w][3][b3] << 4 | t[w][2][a3];
    }
    for (int x = 0; x < 256; x++) { mul5b[x] = gf(x, 0x5b, 0x169); mulef[x] = gf(x, 0xef, 0x169); }
  }
  uint32_t h(const uint8_t X[4], const uint8_t L[4][4]) const {
    uint8_t y[4]; for (int j = 0; j < 4; j++) y[j] = X[j];
    static const int qa[4][4] = {{1, 0, 0, 1}, {1, 1, 0, 0}, {0, 0, 1, 1}, {0, 1, 1, 0}};   // [byte] order applied: L3, L2, L1 stages etc.
    // k = 4: q1 q0 q0 q1 then q1 q1 q0 q0 then the common q0 q1 q0 q1 / q0 q0 q1 q1 / q1 q0 q1 q0
    (void)qa;
    static const int s3[4] = {1, 0, 0, 1}, s2[4] = {1, 1, 0, 0}, s1[4] = {0, 1, 0, 1}, s0[4] = {0, 0, 1, 1}, sf[4] = {1, 0, 1, 0};
    for (int j = 0; j < 4; j++) {
      y[j] = q[s3[j]][y[j]] ^ L[3][j];
      y[j] = q[s2[j]][y[j]] ^ L[2][j];
      y[j] = q[s1[j]][y[j]] ^ L[1][j];
      y[j] = q[s0[j]][y[j]] ^ L[0][j];
      y[j] = q[sf[j]][y[j]];
    }
    // MDS
    uint8_t z0 = y[0] ^ mulef[y[1]] ^ mul5b[y[2]] ^ mul5b[y[3]];
    uint8_t z1 = mul5b[y[0]] ^ mulef[y[1]] ^ mulef[y[2]] ^ y[3];
    uint8_t z2 = mulef[y[0]] ^ mul5b[y[1]] ^ y[2] ^ mulef[y[3]];
    uint8_t z3 = mulef[y[0]] ^ y[1] ^ mulef[y[2]] ^ mul5b[y[3]];
    return z0 | (uint32_t)z1 << 8 | (uint32_t)z2 << 16 | (uint32_t)z3 << 24;
  }
  explicit Twofish(const unsigned char *key) {
    tables();
    static const uint8_t RS[4][8] = {{0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E}, {0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5},
                                     {0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19}, {0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03}};
    uint8_t rsmul[4][8][256];
    for (int r = 0; r < 4; r++) for (int c = 0; c < 8; c++) for (int x = 0; x < 256; x++) rsmul[r][c][x] = gf((uint8_t)x, RS[r][c], 0x14d);
    for (int i = 0; i < 4; i++) for (int r = 0; r < 4; r++) {
      uint8_t v = 0; for (int c = 0; c < 8; c++) v ^= rsmul[r][c][key[8 * i + c]];
      S[3 - i][r] = v;       // S = (S_{k-1}, ..., S_0)
    }
    uint8_t Me[4][4], Mo[4][4];
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { Me[i][j] = key[8 * i + j]; Mo[i][j] = key[8 * i + 4 + j]; }
    for (int i = 0; i < 20; i++) {
      uint8_t xe[4] = {(uint8_t)(2 * i), (uint8_t)(2 * i), (uint8_t)(2 * i), (uint8_t)(2 * i)}, xo[4] = {(uint8_t)(2 * i + 1), (uint8_t)(2 * i + 1), (uint8_t)(2 * i + 1), (uint8_t)(2 * i + 1)};
      uint32_t A = h(xe, Me), B = rotl(h(xo, Mo), 8);
      K[2 * i] = A + B; K[2 * i + 1] = rotl(A + 2 * B, 9);
    }
  }
  uint32_t g(uint32_t x) const { uint8_t b[4] = {(uint8_t)x, (uint8_t)(x >> 8), (uint8_t)(x >> 16), (uint8_t)(x >> 24)}; return h(b, S); }
  void encrypt(const unsigned char *in, unsigned char *out) const {
    uint32_t R[4]; for (int i = 0; i < 4; i++) R[i] = le32(in + 4 * i) ^ K[i];
    for (int r = 0; r < 16; r++) {
      uint32_t t0 = g(R[0]), t1 = g(rotl(R[1], 8)), f0 = t0 + t1 + K[2 * r + 8], f1 = t0 + 2 * t1 + K[2 * r + 9];
      uint32_t n2 = rotl(R[2] ^ f0, 31), n3 = rotl(R[3], 1) ^ f1;
      R[2] = R[0]; R[3] = R[1]; R[0] = n2; R[1] = n3;
    }
    for (int i = 0; i < 4; i++) { uint32_t v = R[(i + 2) % 4] ^ K[i + 4]; for (int j = 0; j < 4; j++) out[4 * i + j] = (unsigned char)(v >> 8 * j); }
  }
  void decrypt(const unsigned char *in, unsigned char *out) const {
    uint32_t R[4]; for (int i = 0; i < 4; i++) R[(i + 2) % 4] = le32(in + 4 * i) ^ K[i + 4];
    for (int r = 15; r >= 0; r--) {
      uint32_t a = R[2], b = R[3];           // previous R0, R1
      uint32_t t0 = g(a), t1 = g(rotl(b, 8)), f0 = t0 + t1 + K[2 * r + 8], f1 = t0 + 2 * t1 + K[2 * r + 9];
      uint32_t p2 = rotl(R[0], 1) ^ f0, p3 = rotl(R[1] ^ f1, 31);
      R[0] = a; R[1] = b; R[2] = p2; R[3] = p3;
    }
    for (int i = 0; i < 4; i++) { uint32_t v = R[i] ^ K[i]; for (int j = 0; j < 4; j++) out[4 * i + j] = (unsigned char)(v >> 8 * j); }
  }
};
// ---- CBC with PKCS#7 padding
struct Block { virtual ~Block() {} virtual void enc(const unsigned char *i, unsigned char *o) const = 0; virtual void dec(const unsigned char *i, unsigned char *o) const = 0; };
struct AesBlock : Block { AES_KEY e, d; AesBlock(const Str &k) { AES_set_encrypt_key((const unsigned char *)k.data(), 256, &e); AES_set_decrypt_key((const unsigned char *)k.data(), 256, &d); }
  void enc(const unsigned char *i, unsigned char *o) const override { AES_encrypt(i, o, &e); } void dec(const unsigned char *i, unsigned char *o) const override { AES_decrypt(i, o, &d); } };
struct TwofishBlock : Block { Twofish t; TwofishBlock(const Str &k) : t((const unsigned char *)k.data()) {}
  void enc(const unsigned char *i, unsigned char *o) const override { t.encrypt(i, o); } void dec(const unsigned char *i, unsigned char *o) const override { t.decrypt(i, o); } };
inline Str cbc_enc(const Block &c, Str iv, Str d) {
  size_t pad = 16 - d.size() % 16; d.append(pad, (char)pad);
  Str r; unsigned char x[16], y[16];
  for (size_t i = 0; i < d.size(); i += 16) { for (int j = 0; j < 16; j++) x[j] = (uint8_t)d[i + j] ^ (uint8_t)iv[j]; c.enc(x, y); iv.assign((char *)y, 16); r += iv; }
  return r;
}
// raw: no padding removed.  false: not a positive multiple of the block size
inline bool cbc_dec_raw(const Block &c, Str iv, const Str &d, Str &out) {
  out.clear(); if (d.empty() || d.size() % 16) return false;
  unsigned char y[16];
  for (size_t i = 0; i < d.size(); i += 16) { c.dec((const unsigned char *)d.data() + i, y); for (int j = 0; j < 16; j++) out += (char)(y[j] ^ (uint8_t)iv[j]); iv = d.substr(i, 16); }
  return true;
}
inline bool unpad(Str &s) {
  if (s.empty()) return false;
  unsigned p = (uint8_t)s[s.size() - 1]; if (p < 1 || p > 16) return false;
  for (unsigned i = 0; i < 16; i++) if (i >= 16 - p && (uint8_t)s[s.size() - 16 + i] != p) return false;
  s.resize(s.size() - p); return true;
}
inline bool cbc_dec(const Block &c, const Str &iv, const Str &d, Str &out) { return cbc_dec_raw(c, iv, d, out) && unpad(out); }
template <size_t N> std::array<uint8_t, N> arr(const Str &s) { std::array<uint8_t, N> a; memcpy(a.data(), s.data(), N); return a; }
template <size_t N> Str str(const std::array<uint8_t, N> &a) { return Str((const char *)a.data(), N); }
}
