// C08 / C09: block ciphers, ECB and CBC modes.
#include "spec.h"
#include "cipher.hh"
#include "exception.hh"
#include <memory>
#include <sstream>
using namespace keepass;
static std::unique_ptr<Cipher<16>> mk(int which, const std::string &key, const std::string &iv) {
  if (which) return std::unique_ptr<Cipher<16>>(new TwofishCipher(spec::arr<32>(key), spec::arr<16>(iv)));
  return std::unique_ptr<Cipher<16>>(new AesCipher(spec::arr<32>(key), spec::arr<16>(iv)));
}
static std::unique_ptr<spec::Block> ref(int which, const std::string &key) {
  if (which) return std::unique_ptr<spec::Block>(new spec::TwofishBlock(key));
  return std::unique_ptr<spec::Block>(new spec::AesBlock(key));
}
extern "C" void kp_main() {
  uint64_t mode = kp_param(0), which = kp_param(1), n = kp_param(2), ck = kp_param(3);
  kp_crypto_mode(1);
  std::string key = ck ? std::string("\x01\x23\x45\x67\x89\xab\xcd\xef\xfe\xdc\xba\x98\x76\x54\x32\x10\x00\x11\x22\x33\x44\x55\x66\x77\x88\x99\xaa\xbb\xcc\xdd\xee\xff", 32) : kp::bytes(32, "key"), iv = kp::bytes(16, "iv");
  std::unique_ptr<Cipher<16>> c = mk(which, key, iv);
  kp_check(spec::str(c->InitializationVector()) == iv, "initialization vector not kept");
  if (mode == 0) {            // single blocks
    std::unique_ptr<spec::Block> r = ref(which, key);
    std::string d = kp::bytes(16, "block"); unsigned char e[16]; std::array<uint8_t, 16> x, y;
    c->Encrypt(spec::arr<16>(d), x);
    if (which) { r->enc((const unsigned char *)d.data(), e); for (int i = 0; i < 16; i++) kp_check(x[i] == e[i], "block encryption differs from the specification"); }
    c->Decrypt(x, y);
    kp_check(spec::str(y) == d, "Decrypt(Encrypt(b)) != b");
    c->Decrypt(spec::arr<16>(d), x);
    if (which) { r->dec((const unsigned char *)d.data(), e); for (int i = 0; i < 16; i++) kp_check(x[i] == e[i], "block decryption differs from the specification"); }
    c->Encrypt(x, y);
    kp_check(spec::str(y) == d, "Encrypt(Decrypt(b)) != b");
    kp_reach("done");
  } else if (mode == 1) {     // CBC round trip and agreement with the reference
    std::unique_ptr<spec::Block> r = ref(which, key);
    std::string s = kp::bytes(n, "data");
    std::stringstream a(s), b, d;
    encrypt_cbc(a, b, *c);
    std::string e = b.str();
    kp_check(e == spec::cbc_enc(*r, iv, s), "CBC ciphertext differs from the reference");
    decrypt_cbc(b, d, *c);
    kp_check(d.str() == s, "decrypt(encrypt(s)) != s");
    kp_reach("done");
  } else if (mode == 2) {     // CBC decryption of arbitrary data
    std::unique_ptr<spec::Block> r = ref(which, key);
    // every ciphertext is the encryption of some plaintext (the block cipher is a bijection: mode 0), so for whole
    // blocks the ciphertext is generated from an arbitrary plaintext, padding bytes included
    std::string s = kp::bytes(n, "data"), exp; bool ok = true;
    if (n % 16 == 0 && which) {
      std::string p = s, v = iv; s.clear(); unsigned char x[16], y[16];
      for (size_t i = 0; i < n; i += 16) { for (int j = 0; j < 16; j++) x[j] = (uint8_t)p[i + j] ^ (uint8_t)v[j]; r->enc(x, y); v.assign((char *)y, 16); s += v; }
    }
    std::stringstream a(s), d;
    try { decrypt_cbc(a, d, *c); } catch (const IoError &) { ok = false; kp_reach("refused"); }
    bool good = spec::cbc_dec(*r, iv, s, exp);
    if (n == 0) kp_check(!ok, "empty ciphertext accepted");
    else if (n % 16) kp_check(!ok, "ciphertext of a length that is not a multiple of the block size accepted");
    else { kp_check(good || !ok, "bad padding accepted"); kp_check(ok || !good, "good padding refused"); }
    if (ok && good) { kp_check(d.str() == exp, "decrypted data differs from the reference"); kp_reach("accepted"); }
  } else {                    // 32-byte ECB
    std::string d = kp::bytes(32, "data");
    std::unique_ptr<spec::Block> r = ref(which, key);
    std::array<uint8_t, 32> e = encrypt_ecb(spec::arr<32>(d), *c); unsigned char x[32];
    r->enc((const unsigned char *)d.data(), x); r->enc((const unsigned char *)d.data() + 16, x + 16);
    for (int i = 0; i < 32; i++) kp_check(e[i] == x[i], "ECB ciphertext differs from the reference");
    kp_check(spec::str(decrypt_ecb(e, *c)) == d, "ECB round trip");
    kp_reach("done");
  }
}
